package tuple_test

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"slices"
	"testing"
	"testing/iotest"

	"github.com/apache/datasketches-go/theta"
	"github.com/apache/datasketches-go/tuple"
	"pgregory.net/rapid"

	"verif/ref"
	"verif/tgen"
	"verif/vk"
)

// I32 is a fixed-width value-typed summary.
type I32 struct{ v int32 }

func (I32) Reset()                 {}
func (s I32) Clone() tuple.Summary { return s }
func (I32) Update(int32)           {}

func writeI32(w io.Writer, s I32) error { return binary.Write(w, binary.LittleEndian, s.v) }
func readI32(r io.Reader) (I32, error) {
	var s I32
	err := binary.Read(r, binary.LittleEndian, &s.v)
	return s, err
}

// drawKMV draws any reachable compact content.
func drawKMV(t *rapid.T, seed uint64, maxN int) (ref.KMV, []uint64, bool) {
	sp := tgen.DrawOp(t, "x", maxN, 9)
	sp.Kind = vk.Int(t, "x.k", 0, 7)
	u := tgen.DrawUniverse(t, "u")
	o := sp.Build(t, u, seed)
	v := o.V
	ord := vk.Chance(t, "x.ord", 1, 2) || len(v.H) <= 1
	ent := slices.Clone(v.H)
	if !ord {
		p := vk.NewPRNG(uint64(rapid.Uint16().Draw(t, "x.perm")))
		for i := len(ent) - 1; i > 0; i-- {
			j := p.Intn(i + 1)
			ent[i], ent[j] = ent[j], ent[i]
		}
	}
	return v, ent, ord
}

type form[S tuple.Summary] struct {
	name  string
	read  tuple.SummaryReader[S]
	write tuple.SummaryWriter[S]
	bytes func(h uint64) []byte // reference payload
}

func roundTrip[S tuple.Summary](t *rapid.T, c *vk.Case, f form[S]) {
	seed := drawSeed(t)
	v, ent, ord := drawKMV(t, seed, 600)
	img := encodeRef(v, ent, ord, f.bytes)
	what := fmt.Sprintf("%s n=%d theta=%d ordered=%v", f.name, len(ent), v.Theta, ord)
	exp := func(s *tuple.CompactSketch[S], how string) {
		if s.Theta64() != v.Theta || s.IsEmpty() != v.Empty || s.IsOrdered() != ord || int(s.NumRetained()) != len(ent) || s.IsEstimationMode() != (v.Theta < ref.MaxTheta && !v.Empty) {
			t.Fatalf("%s, %s: theta=%d empty=%v ordered=%v n=%d est=%v", what, how, s.Theta64(), s.IsEmpty(), s.IsOrdered(), s.NumRetained(), s.IsEstimationMode())
		}
		if sh, err := s.SeedHash(); err != nil || sh != v.SeedH {
			t.Fatalf("%s, %s: seed hash %d", what, how, sh)
		}
		if e, w := s.Estimate(), float64(len(ent))/(float64(v.Theta)/float64(ref.MaxTheta)); e != w {
			t.Fatalf("%s, %s: estimate %v want %v", what, how, e, w)
		}
		i := 0
		for h, x := range s.All() {
			var b bytes.Buffer
			if err := f.write(&b, x); err != nil {
				t.Fatal(err)
			}
			if h != ent[i] || !bytes.Equal(b.Bytes(), f.bytes(h)) {
				t.Fatalf("%s, %s: entry %d is %d/%x, want %d/%x", what, how, i, h, b.Bytes(), ent[i], f.bytes(ent[i]))
			}
			i++
		}
		if i != len(ent) {
			t.Fatalf("%s, %s: iterated %d of %d", what, how, i, len(ent))
		}
	}
	s, err := tuple.Decode[S](img, seed, f.read)
	if err != nil {
		t.Fatalf("%s: decode of the documented layout: %v", what, err)
	}
	exp(s, "decoded")
	var b bytes.Buffer
	e := tuple.NewEncoder[S](&b, f.write)
	if err := e.Encode(s); err != nil {
		t.Fatalf("%s: encode: %v", what, err)
	}
	if !bytes.Equal(b.Bytes(), img) {
		t.Fatalf("%s: encoded image %x differs from the documented layout %x", what, b.Bytes(), img)
	}
	d := tuple.NewDecoder[S](seed, f.read)
	s2, err := d.Decode(iotest.OneByteReader(bytes.NewReader(img)))
	if err != nil {
		t.Fatalf("%s: slow stream: %v", what, err)
	}
	exp(s2, "stream")
	// consecutive images in one stream
	two := bytes.NewReader(append(slices.Clone(img), img...))
	for i := 0; i < 2; i++ {
		s3, err := d.Decode(two)
		if err != nil {
			t.Fatalf("%s: image %d of a stream of two: %v", what, i, err)
		}
		exp(s3, "stream of two")
	}
	// ordering
	so, err := tuple.NewCompactSketch[S](s, true)
	if err != nil || !so.IsOrdered() {
		t.Fatalf("ordered copy: %v", err)
	}
	var prev uint64
	for h := range so.All() {
		if h <= prev {
			t.Fatalf("%s: ordered copy is not ordered", what)
		}
		prev = h
	}
	// rejections
	if !v.Empty {
		if _, err := tuple.Decode[S](img, otherSeed(seed), f.read); err == nil {
			t.Fatalf("%s: wrong seed accepted", what)
		}
	}
	cut := vk.Int(t, "cut", 0, len(img)-1)
	if _, err := tuple.Decode[S](img[:cut], seed, f.read); err == nil {
		t.Fatalf("%s: image truncated to %d of %d bytes accepted", what, cut, len(img))
	}
	bad := slices.Clone(img)
	pos := vk.Int(t, "badpos", 1, 3)
	val := byte(vk.Int(t, "badval", 0, 255))
	if val != bad[pos] && !(pos == 1 && val == 1) && !(pos == 3 && val == 5) {
		bad[pos] = val
		if _, err := tuple.Decode[S](bad, seed, f.read); err == nil {
			t.Fatalf("%s: preamble byte %d=%d accepted", what, pos, val)
		}
	} else if val != bad[pos] { // legacy serial version / type
		bad[1], bad[3] = 1, 5
		s, err := tuple.Decode[S](bad, seed, f.read)
		if err != nil {
			t.Fatalf("%s: legacy image: %v", what, err)
		}
		exp(s, "legacy")
	}
	// a failing writer is reported
	if lim := vk.Int(t, "wlim", 0, len(img)-1); true {
		e := tuple.NewEncoder[S](&limW{lim}, f.write)
		if err := e.Encode(s); err == nil {
			t.Fatalf("%s: write error after %d bytes not reported", what, lim)
		}
	}
	if len(ent) > 1 && (v.Theta < ref.MaxTheta || !ord) {
		c.NT(f.name, v.Theta, len(ent), ord, ent[0])
	}
	c.Class(f.name)
	c.Sample("%s seed=%d -> %d bytes", what, seed, len(img))
}

type limW struct{ n int }

func (l *limW) Write(b []byte) (int, error) {
	if len(b) > l.n {
		return 0, io.ErrShortWrite
	}
	l.n -= len(b)
	return len(b), nil
}

func strPayload(vs []string) []byte {
	n := 5
	for _, s := range vs {
		n += 4 + len(s)
	}
	b := binary.LittleEndian.AppendUint32(nil, uint32(n))
	b = append(b, byte(len(vs)))
	for _, s := range vs {
		b = binary.LittleEndian.AppendUint32(b, uint32(len(s)))
		b = append(b, s...)
	}
	return b
}

func stringsFor(h, salt uint64) []string {
	p := vk.NewPRNG(h ^ salt)
	n := p.Intn(5)
	if p.Intn(200) == 0 {
		n = 127
	}
	r := make([]string, n)
	for i := range r {
		l := p.Intn(12)
		if p.Intn(60) == 0 {
			l = 300
		}
		b := make([]byte, l)
		for j := range b {
			b[j] = byte(p.U64())
		}
		r[i] = string(b)
	}
	return r
}

func TestU03(t *testing.T) {
	vk.Property(t, "U03", "more than one entry, and the sketch is in estimation mode or unordered",
		vk.Sub{Name: "roundtrip", Quick: 12000, Thorough: 250000, Fn: func(t *rapid.T, c *vk.Case) {
			salt := rapid.Uint64().Draw(t, "salt")
			switch vk.Int(t, "form", 0, 3) {
			case 0:
				roundTrip(t, c, form[I32]{"int32", readI32, writeI32, func(h uint64) []byte {
					return binary.LittleEndian.AppendUint32(nil, uint32(vk.Mix(h^salt)))
				}})
			case 1:
				roundTrip(t, c, form[*Tr]{"trace", readTr, writeTr, func(h uint64) []byte {
					p := vk.NewPRNG(h ^ salt)
					var v []int64
					for i := p.Intn(6); i > 0; i-- {
						v = append(v, int64(p.U64()))
					}
					return trBytes(v)
				}})
			case 2:
				roundTrip(t, c, form[*tuple.ArrayOfStringsSummary]{"strings", tuple.ArrayOfStringsSummaryReader, tuple.ArrayOfStringsSummaryWriter, func(h uint64) []byte {
					return strPayload(stringsFor(h, salt))
				}})
			default:
				roundTrip(t, c, form[tuple.ArrayOfStringsInlineSummary]{"inline strings", tuple.ArrayOfStringsInlineSummaryReader, tuple.ArrayOfStringsInlineSummaryWriter, func(h uint64) []byte {
					return strPayload(stringsFor(h, salt))
				}})
			}
		}},
		vk.Sub{Name: "histories", Quick: 6000, Thorough: 120000, Fn: func(t *rapid.T, c *vk.Case) {
			// sketches produced by the library in any way survive a round trip and go on working
			seed := drawSeed(t)
			u := tgen.DrawUniverse(t, "u")
			a := drawOpnd(t, "a", u, seed, 1200, 9, 100000)
			b := drawOpnd(t, "b", u, seed, 1200, 9, 200000)
			cp := func(s TSketch) *tuple.CompactSketch[*Tr] {
				cs, err := tuple.NewCompactSketch[*Tr](s, vk.Chance(t, "ord", 1, 2))
				if err != nil {
					t.Fatal(err)
				}
				var buf bytes.Buffer
				e := tuple.NewEncoder[*Tr](&buf, writeTr)
				if err := e.Encode(cs); err != nil {
					t.Fatal(err)
				}
				d, err := tuple.Decode[*Tr](buf.Bytes(), seed, readTr)
				if err != nil {
					t.Fatalf("decode: %v", err)
				}
				if !snap(d).Equal(snap(cs)) {
					t.Fatalf("round trip of %s: %v %v -> %v %v", a.desc, snap(cs), snap(cs).S, snap(d), snap(d).S)
				}
				return d
			}
			ad, bd := cp(a.S), cp(b.S)
			if err := check(ad, a.V); err != nil {
				t.Fatalf("%s after a round trip: %v", a.desc, err)
			}
			run := func(x, y TSketch) (Snap, Snap, Snap) {
				un, _ := tuple.NewUnion[*Tr](trPolicy{}, tuple.WithUnionLgK(6), tuple.WithUnionSeed(seed))
				is := tuple.NewIntersection[*Tr](trPolicy{}, tuple.WithIntersectionSeed(seed))
				for _, s := range []TSketch{x, y} {
					if err := un.Update(s); err != nil {
						t.Fatal(err)
					}
					if err := is.Update(s); err != nil {
						t.Fatal(err)
					}
				}
				r1, e1 := un.Result(true)
				r2, e2 := is.Result(true)
				r3, e3 := tuple.ANotB[*Tr](x, y, seed, true)
				if e1 != nil || e2 != nil || e3 != nil {
					t.Fatal(e1, e2, e3)
				}
				cp(r1)
				cp(r2)
				cp(r3)
				return snap(r1), snap(r2), snap(r3)
			}
			p1, p2, p3 := run(a.S, b.S)
			q1, q2, q3 := run(ad, bd)
			if !p1.Equal(q1) || !p2.Equal(q2) || !p3.Equal(q3) {
				t.Fatalf("operations on decoded sketches differ from those on the originals: %s %s", a.desc, b.desc)
			}
			if len(a.V.H) > 1 && (a.V.Theta < ref.MaxTheta || !ad.IsOrdered()) {
				c.NT(seed, u, a.desc, b.desc)
			}
			c.Sample("%s with %s", a.desc, b.desc)
		}},
		vk.Sub{Name: "strings", Quick: 3000, Thorough: 60000, Fn: func(t *rapid.T, c *vk.Case) {
			// string-array sketches through the update path: the last value wins
			seed := uint64(theta.DefaultSeed)
			n := vk.Size(t, "n", 0, 300)
			salt := rapid.Uint64().Draw(t, "salt")
			us, err := tuple.NewUpdateSketch[*tuple.ArrayOfStringsSummary, []string](tuple.NewArrayOfStringsSummaryFunc, tuple.WithUpdateSketchLgK(6))
			if err != nil {
				t.Fatal(err)
			}
			ui, err := tuple.NewUpdateSketchWithSummaryUpdateFunc[tuple.ArrayOfStringsInlineSummary, []string](tuple.NewArrayOfStringsInlineSummary, tuple.ArrayOfStringsInlineSummaryUpdateFunc, tuple.WithUpdateSketchLgK(6))
			if err != nil {
				t.Fatal(err)
			}
			m := ref.NewThetaModel(6, 1, seed)
			want := map[uint64][]string{}
			for i := 0; i < n; i++ {
				key := stringsFor(uint64(i%(n/2+1)), ^salt)
				j := []byte{}
				for x, s := range key {
					if x > 0 {
						j = append(j, ',')
					}
					j = append(j, s...)
				}
				hk := tuple.GenerateHashKeyFromStrings(key)
				if w := ref.XXH64(j, 0x7A3CCA71); hk != w {
					t.Fatalf("key hash of %q is %x, want %x", key, hk, w)
				}
				val := stringsFor(uint64(i), salt)
				_ = us.UpdateUint64(hk, val)
				_ = ui.UpdateUint64(hk, val)
				h := tgen.I64Hash(int64(hk), seed)
				m.Offer(h)
				want[h] = val
			}
			v := ref.KMV{Theta: m.Theta64(), H: m.Sorted(), Empty: m.Empty, SeedH: ref.SeedHash16(seed)}
			wantImg := encodeRef(v, v.H, true, func(h uint64) []byte { return strPayload(want[h]) })
			cs, err := us.Compact(true)
			if err != nil {
				t.Fatal(err)
			}
			var b bytes.Buffer
			e := tuple.NewEncoder[*tuple.ArrayOfStringsSummary](&b, tuple.ArrayOfStringsSummaryWriter)
			if err := e.Encode(cs); err != nil {
				t.Fatal(err)
			}
			if !bytes.Equal(b.Bytes(), wantImg) {
				t.Fatalf("string sketch image differs from the model (n=%d)", n)
			}
			ci, err := ui.Compact(true)
			if err != nil {
				t.Fatal(err)
			}
			var bi bytes.Buffer
			ei := tuple.NewEncoder[tuple.ArrayOfStringsInlineSummary](&bi, tuple.ArrayOfStringsInlineSummaryWriter)
			if err := ei.Encode(ci); err != nil {
				t.Fatal(err)
			}
			if !bytes.Equal(bi.Bytes(), wantImg) {
				t.Fatalf("inline string sketch image differs from the model (n=%d)", n)
			}
			// too many strings
			big, _ := tuple.NewUpdateSketch[*tuple.ArrayOfStringsSummary, []string](tuple.NewArrayOfStringsSummaryFunc)
			cnt := vk.Int(t, "cnt", 120, 300)
			_ = big.UpdateInt64(1, make([]string, cnt))
			cb, _ := big.Compact(true)
			eb := tuple.NewEncoder[*tuple.ArrayOfStringsSummary](io.Discard, tuple.ArrayOfStringsSummaryWriter)
			if err := eb.Encode(cb); (err != nil) != (cnt > 127) {
				t.Fatalf("%d strings: %v", cnt, err)
			}
			if n > 64 {
				c.NT(n, salt)
			}
			c.Sample("n=%d retained=%d bytes=%d", n, len(v.H), b.Len())
		}},
	)
}
