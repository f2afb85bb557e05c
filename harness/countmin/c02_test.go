package countmin_test

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"math"
	"testing"

	"github.com/apache/datasketches-go/count"
	"pgregory.net/rapid"

	"verif/ref"
	"verif/vk"
)

// image writes the documented layout from the model.
func (x *cm) image() []byte {
	empty := x.total == 0
	b := []byte{2, 1, 18, 0, 0, 0, 0, 0}
	if empty {
		b[3] = 1
	}
	b = binary.LittleEndian.AppendUint32(b, uint32(x.b))
	b = append(b, byte(x.h))
	b = binary.LittleEndian.AppendUint16(b, ref.SeedHash16(uint64(x.seed)))
	b = append(b, 0)
	if empty {
		return b
	}
	b = binary.LittleEndian.AppendUint64(b, uint64(x.total))
	for _, r := range x.tab {
		for _, v := range r {
			b = binary.LittleEndian.AppendUint64(b, uint64(v))
		}
	}
	return b
}

type badWriter struct{ left int }

var errFull = errors.New("full")

func (w *badWriter) Write(p []byte) (int, error) {
	if len(p) > w.left {
		n := w.left
		w.left = 0
		return n, errFull
	}
	w.left -= len(p)
	return len(p), nil
}

func c02trip(t *rapid.T, c *vk.Case) {
	x := newCm(t)
	hist := fmt.Sprintf("h=%d b=%d seed=%d", x.h, x.b, x.seed)
	for i := vk.Int(t, "parts", 0, 2); i > 0; i-- {
		d, err := x.stream(t)
		hist += " " + d
		if err != nil {
			t.Fatalf("%s: %v", hist, err)
		}
	}
	pr := vk.NewPRNG(uint64(rapid.Uint32().Draw(t, "probe")))
	b := x.bytes()
	if want := x.image(); !bytes.Equal(b, want) {
		t.Fatalf("%s: image differs from the documented layout (%d bytes, want %d; % x, want % x)", hist, len(b), len(want), b[:16], want[:16])
	}
	other := x
	if vk.Chance(t, "receiver", 1, 2) {
		other = newCm(t)
	}
	rb := other.bytes()
	d, err := other.s.Deserialize(bytes.Clone(b), x.seed)
	if err != nil {
		t.Fatalf("%s: %v", hist, err)
	}
	if !bytes.Equal(other.bytes(), rb) {
		t.Fatalf("%s: Deserialize changed its receiver", hist)
	}
	y := *x
	y.s = d
	if err := y.checkAll(pr); err != nil {
		t.Fatalf("%s: decoded: %v", hist, err)
	}
	if !bytes.Equal(y.bytes(), b) {
		t.Fatalf("%s: decoded sketch encodes differently", hist)
	}
	// wrong seed, truncation, bad header
	ws := x.seed + int64(1+vk.Int(t, "ds", 0, 1000))
	if ref.SeedHash16(uint64(ws)) != ref.SeedHash16(uint64(x.seed)) && ref.SeedHash16(uint64(ws)) != 0 {
		if _, err := x.s.Deserialize(b, ws); err == nil {
			t.Fatalf("%s: decoded with seed %d", hist, ws)
		}
	}
	cut := vk.Size(t, "cut", 0, len(b)-1)
	if _, err := x.s.Deserialize(bytes.Clone(b[:cut]), x.seed); err == nil {
		t.Fatalf("%s: decoded %d of %d bytes", hist, cut, len(b))
	}
	bad := bytes.Clone(b)
	i := vk.Int(t, "hdr", 0, 2)
	bad[i] ^= byte(vk.Int(t, "flip", 1, 255))
	if _, err := x.s.Deserialize(bad, x.seed); err == nil {
		t.Fatalf("%s: decoded with header byte %d changed to %d", hist, i, bad[i])
	}
	if err := x.s.Serialize(&badWriter{vk.Int(t, "full", 0, len(b)-1)}); err == nil {
		t.Fatalf("%s: a failing writer went unreported", hist)
	}
	// the decoded sketch goes on
	if _, err := y.stream(t); err != nil {
		t.Fatalf("%s: %v", hist, err)
	}
	if err := y.checkAll(pr); err != nil {
		t.Fatalf("%s: decoded and continued: %v", hist, err)
	}
	if x.total > 0 {
		c.NT(hist)
	}
	c.Sample("%s -> %d bytes", hist, len(b))
}

func c02suggest(t *rapid.T, c *vk.Case) {
	re := math.Pow(10, -12*float64(rapid.Uint32().Draw(t, "re"))/(1<<32)) * vk.Pick(t, "m", 1.0, 2.0, 3.0)
	if vk.Chance(t, "nice", 1, 3) {
		re = math.E / float64(vk.Int(t, "buckets", 1, 1000000))
	}
	nb, err := count.SuggestNumBuckets(re)
	fits := math.E/re <= math.MaxInt32-1
	if fits && err != nil {
		t.Fatalf("relative error %v: %v", re, err)
	}
	if err == nil {
		if nb < 1 || math.E/float64(nb) > re*(1+1e-9) {
			t.Fatalf("relative error %v: %d buckets give %v", re, nb, math.E/float64(nb))
		}
		if nb > 1 && math.E/float64(nb-1) < re*(1-1e-9) {
			t.Fatalf("relative error %v: %d buckets, but %d suffice", re, nb, nb-1)
		}
		if nb >= 3 && nb < 1000000 {
			s, err := count.NewCountMinSketch(1, nb, 1)
			if err != nil || s.GetRelativeError() > re*(1+1e-9) {
				t.Fatalf("sketch with the suggested %d buckets: %v", nb, err)
			}
		}
	}
	conf := float64(rapid.Uint32().Draw(t, "conf")) / (1 << 32)
	switch vk.Int(t, "confkind", 0, 3) {
	case 1:
		conf = 1 - math.Exp(-40*conf)
	case 2:
		conf = vk.Pick(t, "edge", 0.0, 1.0, 0.5, 1-1.0/(1<<53))
	}
	nh, err := count.SuggestNumHashes(conf)
	if err != nil || nh < 0 {
		t.Fatalf("confidence %v: %d %v", conf, nh, err)
	}
	if conf < 1 && 1-math.Exp(-float64(nh)) < conf-1e-12 {
		t.Fatalf("confidence %v: %d hashes give %v", conf, nh, 1-math.Exp(-float64(nh)))
	}
	if conf == 1 && nh != 127 {
		t.Fatalf("confidence 1: %d hashes", nh)
	}
	if nh > 1 && 1-math.Exp(-float64(nh-1)) > conf+1e-9 && conf < 1 {
		t.Fatalf("confidence %v: %d hashes, but one fewer suffices", conf, nh)
	}
	for _, bad := range []float64{-1, -1e-300, 1.0000001, math.Inf(1), math.NaN()} {
		if _, err := count.SuggestNumHashes(bad); err == nil {
			t.Fatalf("confidence %v accepted", bad)
		}
	}
	for _, bad := range []float64{-1, 0, -1e-300, math.NaN()} {
		if _, err := count.SuggestNumBuckets(bad); err == nil {
			t.Fatalf("relative error %v accepted", bad)
		}
	}
	// the parameters a sketch cannot have
	h, b := int8(vk.Int(t, "h", -128, 127)), int32(rapid.Int32().Draw(t, "b"))
	ok := h >= 1 && b >= 3 && int64(h)*int64(b) < 1<<30
	if !ok {
		if s, err := count.NewCountMinSketch(h, b, 1); err == nil {
			t.Fatalf("sketch of %d hashes x %d buckets accepted: %v", h, b, s != nil)
		}
	}
	c.NT(re, conf)
	c.Sample("relative error %v -> %d, confidence %v -> %d", re, nb, conf, nh)
}

func TestC02(t *testing.T) {
	vk.Property(t, "C02", "round-trip cases are non-trivial if the sketch was not empty; every suggestion case is",
		vk.Sub{Name: "roundtrip", Quick: 8000, Thorough: 200000, Fn: c02trip},
		vk.Sub{Name: "suggest", Quick: 20000, Thorough: 500000, Fn: c02suggest},
	)
}
