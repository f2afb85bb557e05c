package api

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"strings"
	"testing"

	"github.com/apache/datasketches-go/common"
	"pgregory.net/rapid"

	"verif/vk"
)

// The four serializers against the documented encodings: fixed-width little-endian numbers, strings as a
// 32-bit little-endian byte count and the bytes.
type codec[T comparable] struct {
	name  string
	serde common.ItemSketchSerde[T]
	draw  func(t *rapid.T, i int) T
	enc   func(T) []byte
	hash  func(T) uint64
	cmp   func(bool) common.CompareFn[T]
	less  func(a, b T) bool
	width int // 0: variable
}

var special64 = []uint64{0, 1, 1 << 63, math.MaxUint64, 0x7ff0000000000000, 0xfff0000000000000, 0x7ff8000000000000, 0x7ff0000000000001, 0xfff8dead00000000, 0x3ff0000000000000}

func word(t *rapid.T, i int) uint64 {
	if vk.Chance(t, fmt.Sprintf("sp%d", i), 1, 4) {
		return special64[vk.Int(t, fmt.Sprintf("spi%d", i), 0, len(special64)-1)]
	}
	return rapid.Uint64().Draw(t, fmt.Sprintf("w%d", i))
}

var doubles = codec[float64]{
	name: "double", serde: common.ItemSketchDoubleSerDe{}, width: 8,
	draw: func(t *rapid.T, i int) float64 { return math.Float64frombits(word(t, i)) },
	enc:  func(x float64) []byte { return binary.LittleEndian.AppendUint64(nil, math.Float64bits(x)) },
	hash: common.ItemSketchDoubleHasher{}.Hash, cmp: common.ItemSketchDoubleComparator,
	less: func(a, b float64) bool { return a < b },
}
var floats = codec[float32]{
	name: "float", serde: common.ItemSketchFloatSerDe{}, width: 4,
	draw: func(t *rapid.T, i int) float32 {
		w := word(t, i)
		return math.Float32frombits(uint32(w>>32) ^ uint32(w)&0xff)
	},
	enc: func(x float32) []byte { return binary.LittleEndian.AppendUint32(nil, math.Float32bits(x)) },
	cmp: common.ItemSketchFloatComparator, less: func(a, b float32) bool { return a < b },
}
var longs = codec[int64]{
	name: "long", serde: common.ItemSketchLongSerDe{}, width: 8,
	draw: func(t *rapid.T, i int) int64 { return int64(word(t, i)) },
	enc:  func(x int64) []byte { return binary.LittleEndian.AppendUint64(nil, uint64(x)) },
	hash: common.ItemSketchLongHasher{}.Hash, cmp: common.ItemSketchLongComparator,
	less: func(a, b int64) bool { return a < b },
}
var stringsC = codec[string]{
	name: "string", serde: common.ItemSketchStringSerDe{},
	draw: func(t *rapid.T, i int) string {
		switch vk.Int(t, fmt.Sprintf("sk%d", i), 0, 5) {
		case 0:
			return ""
		case 1:
			return strings.Repeat("q", vk.Int(t, fmt.Sprintf("sl%d", i), 250, 70000))
		case 2:
			return string(rapid.SliceOfN(rapid.Byte(), 0, 9).Draw(t, fmt.Sprintf("sb%d", i)))
		}
		return rapid.StringN(0, 12, 40).Draw(t, fmt.Sprintf("s%d", i))
	},
	enc: func(x string) []byte {
		return append(binary.LittleEndian.AppendUint32(nil, uint32(len(x))), x...)
	},
	hash: common.ItemSketchStringHasher{}.Hash, cmp: common.ItemSketchStringComparator,
	less: func(a, b string) bool { return a < b },
}

func a01[T comparable](k *codec[T]) func(*rapid.T, *vk.Case) {
	return func(t *rapid.T, c *vk.Case) {
		n := vk.Pick(t, "n", 0, 1, 2, vk.Int(t, "nn", 3, 12), vk.Int(t, "nb", 13, 80))
		if k.width == 0 && n > 12 {
			n = 12
		}
		xs := make([]T, n)
		var want []byte
		total := 0
		for i := range xs {
			xs[i] = k.draw(t, i)
			e := k.enc(xs[i])
			want = append(want, e...)
			if s := k.serde.SizeOf(xs[i]); s != len(e) {
				t.Fatalf("%s: size of %v is %d, encoding has %d bytes", k.name, xs[i], s, len(e))
			}
			total += len(e)
			if one := k.serde.SerializeOneToSlice(xs[i]); !bytes.Equal(one, e) && !(k.width == 0 && len(e) == 4 && len(one) == 0) {
				t.Fatalf("%s: %v serialized to %x, want %x", k.name, xs[i], one, e)
			}
		}
		got := k.serde.SerializeManyToSlice(xs)
		if !bytes.Equal(got, want) {
			t.Fatalf("%s: %d items serialized to %d bytes, want %d\n%.100x\n%.100x", k.name, n, len(got), len(want), got, want)
		}
		pre := rapid.SliceOfN(rapid.Byte(), 0, 20).Draw(t, "pre")
		suf := rapid.SliceOfN(rapid.Byte(), 0, 9).Draw(t, "suf")
		mem := append(append(append([]byte{}, pre...), want...), suf...)
		keep := append([]byte{}, mem...)
		off := len(pre)
		if s, err := k.serde.SizeOfMany(mem, off, n); err != nil || s != total {
			t.Fatalf("%s: size of %d items at %d: %d %v, want %d", k.name, n, off, s, err, total)
		}
		back, err := k.serde.DeserializeManyFromSlice(mem, off, n)
		if err != nil || len(back) != n {
			t.Fatalf("%s: %d items at %d: got %d, %v", k.name, n, off, len(back), err)
		}
		for i := range mem {
			mem[i] = ^mem[i] // results must not share the caller's memory
		}
		for i := range back {
			if !bytes.Equal(k.enc(back[i]), k.enc(xs[i])) {
				t.Fatalf("%s: item %d came back as %v, want %v", k.name, i, back[i], xs[i])
			}
		}
		mem = keep
		// a prefix too short for all items is refused, wherever it ends
		if n > 0 {
			cut := vk.Pick(t, "cut", off+total-1, off, vk.Int(t, "cutat", off, off+total-1))
			short := mem[:cut:cut]
			var e1, e2 error
			if p := vk.Catch(func() {
				_, e1 = k.serde.DeserializeManyFromSlice(short, off, n)
				_, e2 = k.serde.SizeOfMany(short, off, n)
			}); p != nil {
				t.Fatalf("%s: %d items cut to %d of %d bytes: panic %v", k.name, n, cut-off, total, p)
			}
			if e1 == nil {
				t.Fatalf("%s: %d items read from %d of their %d bytes", k.name, n, cut-off, total)
			}
			if k.width == 0 && e2 == nil {
				t.Fatalf("%s: size of %d items found from %d of their %d bytes", k.name, n, cut-off, total)
			}
		}
		// requests outside the memory are refused without a panic
		bad := vk.Pick(t, "bad", -1, -8, len(mem)+1, len(mem)+vk.Int(t, "far", 1, 1<<30), math.MaxInt64-7, math.MinInt64)
		num := vk.Pick(t, "badn", 1, 2, math.MaxInt32, math.MaxInt64/8+2, math.MaxInt64)
		var e1 error
		if p := vk.Catch(func() { _, e1 = k.serde.DeserializeManyFromSlice(mem, bad, num) }); p != nil || e1 == nil {
			t.Fatalf("%s: %d items at offset %d of %d bytes: err=%v panic=%v", k.name, num, bad, len(mem), e1, p)
		}
		if num > 2 {
			if p := vk.Catch(func() { _, e1 = k.serde.DeserializeManyFromSlice(mem, 0, num) }); p != nil || e1 == nil {
				t.Fatalf("%s: %d items from %d bytes: err=%v panic=%v", k.name, num, len(mem), e1, p)
			}
		}
		if p := vk.Catch(func() {
			if r, err := k.serde.DeserializeManyFromSlice(mem, off, -num); err == nil && len(r) > 0 {
				t.Fatalf("%s: %d items read", k.name, -num)
			}
		}); p != nil {
			t.Fatalf("%s: %d items: panic %v", k.name, -num, p)
		}
		// equal items hash alike, different items differ; the comparators are a strict order and its reverse
		up, down := k.cmp(false), k.cmp(true)
		for i := 1; i < n; i++ {
			a, b := xs[i-1], xs[i]
			if up(a, b) != k.less(a, b) || down(a, b) != k.less(b, a) {
				t.Fatalf("%s: comparing %v and %v: %v, reversed %v", k.name, a, b, up(a, b), down(a, b))
			}
			if k.hash != nil && a == a && b == b && (k.hash(a) == k.hash(b)) != (a == b) {
				t.Fatalf("%s: hashes of %v and %v: %x %x", k.name, a, b, k.hash(a), k.hash(b))
			}
		}
		if n > 0 && len(pre) > 0 {
			c.NT(k.name, want, off)
			c.Class(fmt.Sprintf("%s n=%d", k.name, min(n, 13)))
		}
		if c.WantSample() {
			c.Sample("%s: %d items, %d bytes at offset %d: %.60v", k.name, n, total, off, fmt.Sprint(xs))
		}
	}
}

func TestA01(t *testing.T) {
	vk.Property(t, "A01", "at least one item, read back from the middle of a larger buffer",
		vk.Sub{Name: "double", Quick: 3000, Thorough: 60000, Fn: a01(&doubles)},
		vk.Sub{Name: "float", Quick: 3000, Thorough: 60000, Fn: a01(&floats)},
		vk.Sub{Name: "long", Quick: 3000, Thorough: 60000, Fn: a01(&longs)},
		vk.Sub{Name: "string", Quick: 3000, Thorough: 60000, Fn: a01(&stringsC)},
	)
}
