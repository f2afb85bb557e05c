package theta_test

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"math/bits"
	"slices"
	"testing"
	"testing/iotest"

	"github.com/apache/datasketches-go/theta"
	"pgregory.net/rapid"

	"verif/ref"
	"verif/tgen"
	"verif/vk"
)

// drawKMV makes a sketch value whose largest delta has exactly w bits.
func drawKMV(t *rapid.T, w, n int, seed uint64) ref.KMV {
	p := vk.NewPRNG(uint64(rapid.Uint32().Draw(t, "deltas")))
	budget := ref.MaxTheta - 2
	deltas := make([]uint64, n)
	big := 0
	if n > 0 {
		big = vk.Int(t, "bigpos", 0, n-1)
		lo := uint64(1) << (w - 1)
		hi := min(lo<<1-1, budget-uint64(n))
		deltas[big] = lo + p.U64()%(hi-lo+1)
		if vk.Int(t, "allones", 0, 3) == 0 {
			deltas[big] = hi
		}
		budget -= deltas[big]
	}
	for i := range deltas {
		if i == big {
			continue
		}
		m := budget / uint64(n)
		if m > 1<<w-1 {
			m = 1<<w - 1
		}
		if m < 1 {
			m = 1
		}
		d := p.U64() % m
		if p.Intn(3) == 0 {
			d = m - 1
		}
		if p.Intn(4) == 0 {
			d >>= uint(p.Intn(60))
		}
		deltas[i] = d + 1
	}
	v := ref.KMV{Theta: ref.MaxTheta, SeedH: ref.SeedHash16(seed), Empty: n == 0}
	var prev uint64
	for _, d := range deltas {
		prev += d
		v.H = append(v.H, prev)
	}
	if vk.Int(t, "est", 0, 1) == 1 {
		v.Theta = prev + 1 + p.U64()%(ref.MaxTheta-prev-1)
		v.Empty = false
	}
	return v
}

func encode(t *rapid.T, s *theta.CompactSketch, compressed bool) []byte {
	var b bytes.Buffer
	e := theta.NewEncoder(&b, compressed)
	if err := e.Encode(s); err != nil {
		t.Fatalf("Encode(compressed=%v): %v", compressed, err)
	}
	if n := s.SerializedSizeBytes(compressed); n != b.Len() {
		t.Fatalf("SerializedSizeBytes(%v)=%d but %d bytes written", compressed, n, b.Len())
	}
	return b.Bytes()
}

// decodeAll decodes an image along every path and compares with want (iteration order included).
func decodeAll(t *rapid.T, img []byte, seed uint64, want tgen.Snapshot, what string) {
	img0 := slices.Clone(img)
	d, err := theta.Decode(img, seed)
	if err != nil {
		t.Fatalf("%s: Decode: %v (%x)", what, err, clip(img))
	}
	dec := theta.NewDecoder(seed)
	var rd io.Reader = bytes.NewReader(img)
	if vk.Int(t, "rd", 0, 1) == 1 {
		rd = iotest.OneByteReader(rd)
	}
	d2, err := dec.Decode(rd)
	if err != nil {
		t.Fatalf("%s: Decoder.Decode: %v", what, err)
	}
	w, err := theta.WrapCompactSketch(img, seed)
	if err != nil {
		t.Fatalf("%s: Wrap: %v", what, err)
	}
	for i, s := range []theta.Sketch{d, d2, w} {
		sn := tgen.Snap(s)
		if !sn.Equal(want) {
			t.Fatalf("%s: path %d decoded to %v, want %v (image %x)", what, i, sn, want, clip(img))
		}
		for sd := uint8(1); sd <= 3; sd++ {
			lb, e1 := s.LowerBound(sd)
			ub, e2 := s.UpperBound(sd)
			lb0, e3 := d.LowerBound(sd)
			ub0, e4 := d.UpperBound(sd)
			if lb != lb0 || ub != ub0 || (e1 == nil) != (e3 == nil) || (e2 == nil) != (e4 == nil) {
				t.Fatalf("%s: bounds differ between decoding paths", what)
			}
		}
		if s.Estimate() != d.Estimate() {
			t.Fatalf("%s: estimates differ", what)
		}
	}
	if !bytes.Equal(img, img0) {
		t.Fatalf("%s: decoding changed the image", what)
	}
	// early termination of iteration
	k := 0
	for range w.All() {
		if k++; k == 3 {
			break
		}
	}
	if want.N > 0 && !want.Empty {
		other := seed + 1
		for ref.SeedHash16(other) == ref.SeedHash16(seed) || ref.SeedHash16(other) == 0 {
			other++
		}
		if img[1] != 1 {
			if _, err := theta.Decode(img, other); err == nil {
				t.Fatalf("%s: Decode accepted the wrong seed", what)
			}
			if _, err := theta.WrapCompactSketch(img, other); err == nil {
				t.Fatalf("%s: Wrap accepted the wrong seed", what)
			}
		}
	}
	bad := slices.Clone(img)
	bad[2] ^= byte(vk.Int(t, "famxor", 1, 255))
	if _, err := theta.Decode(bad, seed); err == nil {
		t.Fatalf("%s: wrong sketch family accepted", what)
	}
}

func clip(b []byte) []byte {
	if len(b) > 80 {
		return b[:80]
	}
	return b
}

func roundTrip(t *rapid.T, s *theta.CompactSketch, seed uint64, what string) {
	want := tgen.Snap(s)
	v := ref.KMV{Theta: want.Theta, Empty: want.Empty, SeedH: want.SeedH}
	for _, comp := range []bool{false, true} {
		img := encode(t, s, comp)
		exp := ref.EncodeThetaV3(v, want.H, want.Ordered)
		if comp && want.Ordered && len(want.H) > 0 && !(len(want.H) == 1 && !want.Est) {
			exp = ref.EncodeThetaV4(v, want.H, 0, 0)
		}
		if !bytes.Equal(img, exp) {
			t.Fatalf("%s compressed=%v: image %x differs from the documented layout %x", what, comp, clip(img), clip(exp))
		}
		decodeAll(t, img, seed, want, fmt.Sprintf("%s compressed=%v", what, comp))
	}
	mb, err := s.MarshalBinary()
	if err != nil {
		t.Fatal(err)
	}
	if !bytes.Equal(mb, ref.EncodeThetaV3(v, want.H, want.Ordered)) {
		t.Fatalf("%s: MarshalBinary %x", what, clip(mb))
	}
	var u theta.CompactSketch
	_ = u
	if !tgen.Snap(s).Equal(want) {
		t.Fatalf("%s: encoding changed the sketch", what)
	}
}

func TestT03(t *testing.T) {
	vk.Property(t, "T03", "the sketch has at least 2 retained hashes or theta < 1",
		vk.Sub{Name: "widths", Quick: 40000, Thorough: 800000, Fn: func(t *rapid.T, c *vk.Case) {
			seed := drawSeed(t)
			w := vk.Int(t, "w", 1, 63)
			n := vk.Int(t, "n", 0, 45)
			if w >= 62 {
				n = min(n, 40)
			}
			v := drawKMV(t, w, n, seed)
			ordered := vk.Int(t, "ord", 0, 3) > 0 || len(v.H) <= 1
			ent := slices.Clone(v.H)
			if !ordered {
				slices.Reverse(ent)
				if len(ent) > 2 {
					ent[0], ent[1] = ent[1], ent[0]
				}
			}
			if v.Empty {
				ordered = true
			}
			img := ref.EncodeThetaV3(v, ent, ordered)
			s, err := theta.Decode(img, seed)
			if err != nil {
				t.Fatalf("valid v3 image rejected: %v", err)
			}
			v.Ordered = ordered
			if err := tgen.Check(s, v); err != nil {
				t.Fatalf("decoded v3: %v", err)
			}
			if s.IsOrdered() != ordered && len(ent) > 1 {
				t.Fatalf("ordered flag lost")
			}
			what := fmt.Sprintf("w=%d n=%d theta=%d ordered=%v", w, n, v.Theta, ordered)
			roundTrip(t, s, seed, what)
			if ordered && len(v.H) > 0 {
				// non-minimal bit widths and count lengths are valid v4 images too
				x := ref.EncodeThetaV4(v, v.H, vk.Int(t, "xb", 0, 4), vk.Int(t, "xc", 0, 2))
				decodeAll(t, x, seed, tgen.Snap(s), what+" padded v4")
			}
			c.Class(fmt.Sprintf("width %02d", w))
			if len(v.H) > 1 || v.Theta < ref.MaxTheta {
				c.NT(what, v.H)
			}
			if c.WantSample() {
				c.Sample("%s hashes=%s", what, tgen.Short(v.H))
			}
		}},
		vk.Sub{Name: "built", Quick: 5000, Thorough: 100000, Fn: func(t *rapid.T, c *vk.Case) {
			seed := drawSeed(t)
			u := tgen.DrawUniverse(t, "u")
			o := drawOpnd(t, "o", u, seed, 6000, 11)
			ord := rapid.Bool().Draw(t, "ord")
			s := theta.NewCompactSketch(o.S, ord)
			roundTrip(t, s, seed, o.Desc)
			o.unchanged(t, "encoding")
			if len(o.V.H) > 1 || o.V.Theta < ref.MaxTheta {
				c.NT(u, o.Desc)
			}
			c.Sample("style=%d %s ordered=%v -> %d hashes", u.Style, o.Desc, ord, len(o.V.H))
		}},
		vk.Sub{Name: "large", Quick: 24, Thorough: 160, Fn: func(t *rapid.T, c *vk.Case) {
			// the number of hashes takes 1, 2, 3 or 4 bytes in compressed images
			seed := drawSeed(t)
			n := vk.Pick(t, "n", 255, 256, 257, 65535, 65536, 65537, 70000+vk.Int(t, "x", 0, 200000))
			if vk.Tier() == "thorough" && vk.Chance(t, "huge", 1, 80) {
				n = 1<<24 - 1 + vk.Int(t, "over", 0, 2)
			}
			w := vk.Int(t, "w", 1, 62)
			v := drawKMV(t, w, n, seed)
			s, err := theta.Decode(ref.EncodeThetaV3(v, v.H, true), seed)
			if err != nil {
				t.Fatalf("valid v3 image rejected: %v", err)
			}
			what := fmt.Sprintf("w=%d n=%d theta=%d", w, n, v.Theta)
			roundTrip(t, s, seed, what)
			decodeAll(t, ref.EncodeThetaV4(v, v.H, vk.Int(t, "xb", 0, 2), vk.Int(t, "xc", 0, 1)), seed, tgen.Snap(s), what+" padded v4")
			c.NT(what)
			c.Class(fmt.Sprintf("%d bytes of count", (bits.Len(uint(n))+7)/8))
			c.Sample("%s", what)
		}},
		vk.Sub{Name: "max-size", Quick: 2000, Thorough: 40000, Fn: func(t *rapid.T, c *vk.Case) {
			// the published bound: three longs of preamble and a hash table filled to 15/16 of twice the nominal size
			lgK := uint8(vk.Int(t, "lgk", int(theta.MinLgK), 11))
			rf := vk.Pick(t, "rf", theta.ResizeX1, theta.ResizeX2, theta.ResizeX4, theta.ResizeX8)
			u, err := theta.NewQuickSelectUpdateSketch(theta.WithUpdateSketchLgK(lgK), theta.WithUpdateSketchResizeFactor(rf))
			if err != nil {
				t.Fatal(err)
			}
			seed, n := rapid.Uint64().Draw(t, "items"), vk.Size(t, "n", 0, 4<<lgK)
			for i := 0; i < n; i++ {
				_ = u.UpdateInt64(int64(vk.Mix(seed + uint64(i))))
			}
			s := u.Compact(vk.Chance(t, "ord", 3, 4))
			bound := int(s.MaxSerializedSizeBytes(lgK))
			for _, compressed := range []bool{false, true} {
				if sz := len(encode(t, s, compressed)); sz > bound {
					t.Fatalf("lgK=%d n=%d: %d bytes (compressed=%v), more than MaxSerializedSizeBytes=%d", lgK, n, sz, compressed, bound)
				}
			}
			any := uint8(vk.Int(t, "any", int(theta.MinLgK), int(theta.MaxLgK)))
			if g, w := int(s.MaxSerializedSizeBytes(any)), 8*(3+15*(2<<any)/16); g != w {
				t.Fatalf("MaxSerializedSizeBytes(%d) = %d, want %d", any, g, w)
			}
			if s.NumRetained() > 0 {
				c.NT(lgK, rf, seed, n)
			}
			c.Sample("lgK=%d n=%d retained=%d bound=%d", lgK, n, s.NumRetained(), bound)
		}},
		vk.Sub{Name: "legacy", Quick: 12000, Thorough: 200000, Fn: func(t *rapid.T, c *vk.Case) {
			seed := drawSeed(t)
			n := vk.Size(t, "n", 0, 200)
			v := drawKMV(t, vk.Int(t, "w", 1, 60), n, seed)
			ver := vk.Int(t, "ver", 1, 2)
			pre := 3
			if ver == 2 && v.Theta == ref.MaxTheta {
				pre = 2
				if n == 0 {
					pre = vk.Int(t, "pre", 1, 3)
				} else if vk.Int(t, "pre3", 0, 3) == 0 {
					pre = 3
				}
			}
			img := make([]byte, 8*pre)
			img[0], img[1], img[2] = byte(pre), byte(ver), 3
			img[5] = byte(vk.Int(t, "flags", 0, 255)) &^ 1
			if ver == 2 {
				binary.LittleEndian.PutUint16(img[6:], v.SeedH)
			}
			if pre > 1 {
				binary.LittleEndian.PutUint32(img[8:], uint32(n))
			}
			if pre > 2 {
				binary.LittleEndian.PutUint64(img[16:], v.Theta)
			}
			for _, h := range v.H {
				img = binary.LittleEndian.AppendUint64(img, h)
			}
			want := tgen.Snapshot{Theta: v.Theta, Empty: v.Empty, Ordered: true, Est: v.Theta < ref.MaxTheta, N: uint32(n), H: v.H, SeedH: v.SeedH}
			decodeAll(t, img, seed, want, fmt.Sprintf("v%d pre=%d n=%d theta=%d", ver, pre, n, v.Theta))
			if n > 1 || v.Theta < ref.MaxTheta {
				c.NT(ver, pre, n, v.Theta, v.H)
			}
			c.Sample("v%d pre=%d n=%d theta=%d", ver, pre, n, v.Theta)
		}},
	)
}
