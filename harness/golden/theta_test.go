package golden_test

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"slices"
	"strconv"
	"strings"
	"unicode/utf16"

	"pgregory.net/rapid"

	"github.com/apache/datasketches-go/theta"
	"github.com/apache/datasketches-go/tuple"

	"verif/ref"
	"verif/vk"
)

const seed = theta.DefaultSeed

func intHash(i int64) uint64 {
	h, _ := ref.Murmur128(ref.LE64(uint64(i)), seed)
	return h >> 1
}

var million memo[[]uint64]

// hashesBelow lists the hashes of the keys of a stream that lie below theta.
func hashesBelow(n int, th uint64, key func(i int) uint64) []uint64 {
	var r []uint64
	if n == 1000000 && th < theta.MaxTheta/16 { // keep the few that are ever needed
		for _, h := range million.get("", func() []uint64 { return hashesBelow(999999, theta.MaxTheta/16, key) }) {
			if h < th {
				r = append(r, h)
			}
		}
		if h := key(n - 1); h < th {
			r = append(r, h)
			slices.Sort(r)
		}
		return r
	}
	for i := 0; i < n; i++ {
		if h := key(i); h < th && h != 0 {
			r = append(r, h)
		}
	}
	slices.Sort(r)
	return slices.Compact(r)
}

func thetaShow(s theta.Sketch) string {
	var hs []uint64
	for h := range s.All() {
		hs = append(hs, h)
	}
	if !s.IsOrdered() {
		slices.Sort(hs)
	}
	sh, err := s.SeedHash()
	if s.IsEmpty() { // Java writes no seed hash for an empty sketch
		sh = 0
	}
	r := fmt.Sprintf("empty=%v ordered=%v est=%v theta=%d n=%d sh=%d,%v e=%v ", s.IsEmpty(), s.IsOrdered(), s.IsEstimationMode(), s.Theta64(), s.NumRetained(), sh, err, s.Estimate())
	for k := uint8(1); k <= 3; k++ {
		lo, e1 := s.LowerBound(k)
		hi, e2 := s.UpperBound(k)
		r += fmt.Sprint(lo, hi, e1, e2, " ")
	}
	return r + raw(hs)
}

func raw(hs []uint64) string {
	b := make([]byte, 0, 8*len(hs))
	for _, h := range hs {
		b = binary.LittleEndian.AppendUint64(b, h)
	}
	return string(b)
}

var thetaNative memo[*theta.QuickSelectUpdateSketch]

func nativeTheta(t *rapid.T, n int, p float32) *theta.QuickSelectUpdateSketch {
	return thetaNative.get(fmt.Sprint(n, p), func() *theta.QuickSelectUpdateSketch {
		s, err := theta.NewQuickSelectUpdateSketch(theta.WithUpdateSketchP(p))
		if err != nil {
			t.Fatalf("%v", err)
		}
		for i := 0; i < n; i++ {
			_ = s.UpdateInt64(int64(i))
		}
		return s
	})
}

var thetaFiles []*img

func thetaExtra(t *rapid.T) []*img {
	if thetaFiles == nil {
		for _, v := range []string{"v1", "v2"} {
			for _, k := range []string{"empty", "estimation"} {
				name := "theta_compact_" + k + "_from_java_" + v
				d, err := os.ReadFile(filepath.Join(vk.RepoDir(), "theta", name+".sk"))
				if err != nil {
					t.Fatalf("%v", err)
				}
				n := 0
				if k == "estimation" {
					n = 8192
				}
				thetaFiles = append(thetaFiles, &img{lang: "java", name: name, n: n, data: d})
			}
		}
	}
	return thetaFiles
}

func gTheta(t *rapid.T, c *vk.Case) {
	all := slices.Concat(images(t, `theta_n(\d+)`), images(t, `theta_compressed_n(\d+)`), images(t, `theta_non_empty_no_entries`), thetaExtra(t))
	f := all[vk.Int(t, "image", 0, len(all)-1)]
	c.Class(f.lang)
	d, err := theta.Decode(f.data, seed)
	must(t, f, err)
	var nat theta.Sketch
	if f.name == "theta_non_empty_no_entries" {
		if d.IsEmpty() || d.NumRetained() != 0 || d.Theta64() >= theta.MaxTheta || d.Estimate() != 0 {
			t.Fatalf("%s: %s", f, thetaShow(d))
		}
		u, err := theta.NewQuickSelectUpdateSketch(theta.WithUpdateSketchP(0.01))
		must(t, f, err)
		_ = u.UpdateInt64(1)
		nat = u.CompactOrdered()
	} else {
		nat = nativeTheta(t, f.n, 1).CompactOrdered()
		want := hashesBelow(f.n, d.Theta64(), func(i int) uint64 { return intHash(int64(i)) })
		var got []uint64
		for h := range d.All() {
			got = append(got, h)
		}
		if !slices.Equal(got, want) {
			t.Fatalf("%s: the retained hashes are not those of the stream 0..%d below theta %d (%d retained, %d expected)", f, f.n-1, d.Theta64(), len(got), len(want))
		}
	}
	same(t, f, "content", thetaShow(d), thetaShow(nat))
	w, err := theta.WrapCompactSketch(f.data, seed)
	must(t, f, err)
	same(t, f, "wrapped content", thetaShow(w), thetaShow(nat))
	if f.lang != "java" && f.m != nil {
		cmp := f.data[1] == 4
		var b bytes.Buffer
		e := theta.NewEncoder(&b, cmp)
		must(t, f, e.Encode(nat.(*theta.CompactSketch)))
		if cmp || f.lang == "go" {
			same(t, f, "image", fmt.Sprintf("%x", b.Bytes()), fmt.Sprintf("%x", f.data))
		}
	}
	for _, cmp := range []bool{false, true} {
		enc := func(s *theta.CompactSketch) []byte {
			var b bytes.Buffer
			e := theta.NewEncoder(&b, cmp)
			must(t, f, e.Encode(s))
			return b.Bytes()
		}
		if !d.IsEmpty() {
			same(t, f, "re-encoding", fmt.Sprintf("%x", enc(d)), fmt.Sprintf("%x", enc(nat.(*theta.CompactSketch))))
		}
	}

	// generated follow-up operations
	sp := drawSpan(t, "other", f.n, 30000)
	lg := uint8(vk.Int(t, "lgK", 5, 13))
	o, err := theta.NewQuickSelectUpdateSketch(theta.WithUpdateSketchLgK(lg), theta.WithUpdateSketchP(vk.Pick(t, "p", float32(1), 1, 0.3)))
	must(t, f, err)
	sp.each(func(i int) { _ = o.UpdateInt64(int64(i)) })
	ulg := uint8(vk.Int(t, "unionLgK", 5, 14))
	ord := vk.Chance(t, "ordered", 1, 2)
	ops := func(x theta.Sketch) string {
		r := ""
		u, err := theta.NewUnion(theta.WithUnionLgK(ulg))
		must(t, f, err)
		must(t, f, u.Update(x))
		must(t, f, u.Update(o))
		ur, err := u.Result(ord)
		must(t, f, err)
		r += thetaShow(ur)
		in := theta.NewIntersection()
		must(t, f, in.Update(o))
		must(t, f, in.Update(x))
		ir, err := in.Result(ord)
		must(t, f, err)
		r += "\n" + thetaShow(ir)
		for _, p := range [][2]theta.Sketch{{x, o}, {o, x}} {
			a, err := theta.ANotB(p[0], p[1], seed, ord)
			must(t, f, err)
			r += "\n" + thetaShow(a)
		}
		j, err := theta.Jaccard(x, o, seed)
		must(t, f, err)
		return r + fmt.Sprint("\n", j)
	}
	want := ops(nat)
	same(t, f, "set operations", ops(d), want)
	same(t, f, "set operations on the wrapped image", ops(w), want)
	if vk.Chance(t, "p2", 1, 2) { // exact oracle for the union
		u, _ := theta.NewUnion(theta.WithUnionLgK(ulg))
		must(t, f, u.Update(o))
		must(t, f, u.Update(d))
		ur, err := u.Result(true)
		must(t, f, err)
		th := ur.Theta64()
		m := map[uint64]bool{}
		if f.m != nil && len(f.m) > 1 || f.n > 0 {
			for _, h := range hashesBelow(f.n, th, func(i int) uint64 { return intHash(int64(i)) }) {
				m[h] = true
			}
		}
		sp.each(func(i int) {
			if h := intHash(int64(i)); h < th && h != 0 {
				m[h] = true
			}
		})
		k := 0
		for h := range ur.All() {
			if !m[h] {
				t.Fatalf("%s united with %s: result holds %d, which is no hash of the united streams below theta %d", f, sp, h, th)
			}
			k++
		}
		if k != len(m) {
			t.Fatalf("%s united with %s at lgK %d: %d retained, the united streams have %d hashes below theta %d", f, sp, ulg, k, len(m), th)
		}
	}
	if f.n > 0 || sp.n > 0 {
		c.NT(f.String(), sp, lg, ulg, ord)
	}
	c.Sample("%s with %s lgK=%d union lgK=%d", f, sp, lg, ulg)
}

// ---------------------------------------------------------------- tuple

type i32s struct{ v int32 }

func (s *i32s) Reset()               { s.v = 0 }
func (s *i32s) Clone() tuple.Summary { return &i32s{s.v} }
func (s *i32s) Update(x int32)       { s.v += x }

func w32(w io.Writer, s *i32s) error { return binary.Write(w, binary.LittleEndian, s.v) }
func r32(r io.Reader) (*i32s, error) {
	s := &i32s{}
	return s, binary.Read(r, binary.LittleEndian, &s.v)
}

type add32 struct{}

func (add32) Apply(a, b *i32s) { a.v += b.v }

type addAon struct{}

func (addAon) Apply(a, b *tuple.ArrayOfNumbersSummary[float64]) {
	for i, v := range b.Values() {
		a.Values()[i] += v
	}
}

type keepAos struct{}

func (keepAos) Apply(a, b *tuple.ArrayOfStringsSummary) {}

type tup[S tuple.Summary] interface {
	IsEmpty() bool
	IsEstimationMode() bool
	Theta64() uint64
	NumRetained() uint32
	Estimate() float64
	LowerBound(uint8) (float64, error)
	UpperBound(uint8) (float64, error)
	SeedHash() (uint16, error)
	All() func(func(uint64, S) bool)
}

type hs struct {
	h uint64
	s string
}

func entries[S any](all func(func(uint64, S) bool), show func(S) string) []hs {
	var r []hs
	for h, s := range all {
		r = append(r, hs{h, show(s)})
	}
	slices.SortFunc(r, func(a, b hs) int {
		if a.h < b.h {
			return -1
		}
		return 1
	})
	return r
}

type tupHead interface {
	IsEmpty() bool
	IsEstimationMode() bool
	Theta64() uint64
	NumRetained() uint32
	Estimate() float64
	LowerBound(uint8) (float64, error)
	UpperBound(uint8) (float64, error)
	SeedHash() (uint16, error)
}

func tupShow(s tupHead, es []hs) string {
	sh, err := s.SeedHash()
	r := fmt.Sprintf("empty=%v est=%v theta=%d n=%d sh=%d,%v e=%v ", s.IsEmpty(), s.IsEstimationMode(), s.Theta64(), s.NumRetained(), sh, err, s.Estimate())
	for k := uint8(1); k <= 3; k++ {
		lo, e1 := s.LowerBound(k)
		hi, e2 := s.UpperBound(k)
		r += fmt.Sprint(lo, hi, e1, e2, " ")
	}
	b := []byte(r)
	for _, e := range es {
		b = binary.LittleEndian.AppendUint64(b, e.h)
		b = append(append(b, e.s...), ';')
	}
	return string(b)
}

var impliedMaps memo[map[uint64]string]

// implied checks the retained entries against the stream.
func implied(t *rapid.T, f *img, th uint64, es []hs, key func(i int) uint64, val func(i int) string) {
	want := impliedMaps.get(fmt.Sprint(f, th), func() map[uint64]string {
		m := map[uint64]string{}
		for i := 0; i < f.n; i++ {
			if h := key(i); h < th && h != 0 {
				m[h] = val(i)
			}
		}
		return m
	})
	if len(es) != len(want) {
		t.Fatalf("%s: %d entries, the stream has %d keys below theta %d", f, len(es), len(want), th)
	}
	for _, e := range es {
		if w, ok := want[e.h]; !ok || w != e.s {
			t.Fatalf("%s: entry %d=%q, the stream implies %q (present=%v)", f, e.h, e.s, w, ok)
		}
	}
}

func gTuple(t *rapid.T, c *vk.Case) {
	switch vk.Int(t, "kind", 0, 3) {
	case 0:
		gTupleInt(t, c)
	case 1:
		gAod(t, c)
	default:
		gAos(t, c)
	}
}

var tupNative memo[*tuple.CompactSketch[*i32s]]

func gTupleInt(t *rapid.T, c *vk.Case) {
	f := pickImg(t, c, `tuple_int_n(\d+)`)
	rd := r32
	if f.lang == "go" { // these files hold 8-byte summaries
		rd = func(r io.Reader) (*i32s, error) {
			var v int64
			err := binary.Read(r, binary.LittleEndian, &v)
			return &i32s{int32(v)}, err
		}
	}
	d, err := tuple.Decode(f.data, seed, rd)
	must(t, f, err)
	show := func(s *i32s) string { return strconv.Itoa(int(s.v)) }
	implied(t, f, d.Theta64(), entries(d.All(), show), func(i int) uint64 { return intHash(int64(i)) }, strconv.Itoa)
	mk := func(lg uint8, sp span) *tuple.UpdateSketch[*i32s, int32] {
		s, err := tuple.NewUpdateSketch[*i32s, int32](func() *i32s { return &i32s{} }, tuple.WithUpdateSketchLgK(lg))
		must(t, f, err)
		sp.each(func(i int) { _ = s.UpdateInt64(int64(i), int32(i)) })
		return s
	}
	nat := tupNative.get(strconv.Itoa(f.n), func() *tuple.CompactSketch[*i32s] {
		s, err := mk(12, span{0, f.n}).Compact(true)
		must(t, f, err)
		return s
	})
	ts := func(s *tuple.CompactSketch[*i32s]) string { return tupShow(s, entries(s.All(), show)) }
	same(t, f, "content", ts(d), ts(nat))
	sp := drawSpan(t, "other", f.n, 20000)
	o := mk(uint8(vk.Int(t, "lgK", 5, 13)), sp)
	ulg := uint8(vk.Int(t, "ulgK", 5, 14))
	ops := func(x *tuple.CompactSketch[*i32s]) string {
		u, err := tuple.NewUnion[*i32s](add32{}, tuple.WithUnionLgK(ulg))
		must(t, f, err)
		must(t, f, u.Update(x))
		must(t, f, u.Update(o))
		ur, err := u.Result(true)
		must(t, f, err)
		in := tuple.NewIntersection[*i32s](add32{})
		must(t, f, in.Update(o))
		must(t, f, in.Update(x))
		ir, err := in.Result(true)
		must(t, f, err)
		ab, err := tuple.ANotB[*i32s](x, o, seed, true)
		must(t, f, err)
		var w bytes.Buffer
		e := tuple.NewEncoder[*i32s](&w, w32)
		must(t, f, e.Encode(ur))
		return ts(ur) + "\n" + ts(ir) + "\n" + ts(ab) + fmt.Sprintf("%x", w.Bytes())
	}
	same(t, f, "set operations", ops(d), ops(nat))
	if f.n > 0 {
		c.NT(f.String(), sp, ulg)
	}
	c.Sample("%s with %s", f, sp)
}

var aodNative memo[*tuple.ArrayOfNumbersCompactSketch[float64]]

func gAod(t *rapid.T, c *vk.Case) {
	all := slices.Concat(images(t, `aod_[13]_n(\d+)`), images(t, `aod_1_non_empty_no_entries`))
	f := all[vk.Int(t, "image", 0, len(all)-1)]
	c.Class(f.lang)
	d, err := tuple.DecodeArrayOfNumbersCompactSketch[float64](f.data, seed)
	must(t, f, err)
	if len(f.m) < 2 {
		if d.IsEmpty() || d.NumRetained() != 0 || d.Theta64() >= theta.MaxTheta {
			t.Fatalf("%s: empty=%v retained=%d theta=%d", f, d.IsEmpty(), d.NumRetained(), d.Theta64())
		}
		c.NT(f.String())
		return
	}
	nv := int(f.name[4] - '0')
	if int(d.NumValuesInSummary()) != nv {
		t.Fatalf("%s: %d values per entry", f, d.NumValuesInSummary())
	}
	val := func(i int) []float64 {
		v := make([]float64, nv)
		for j := range v {
			v[j] = float64(i)
			if f.lang == "go" && nv == 3 {
				v[j] = float64(j)
			}
		}
		return v
	}
	show := func(s *tuple.ArrayOfNumbersSummary[float64]) string { return fmt.Sprint(s.Values()) }
	implied(t, f, d.Theta64(), entries(d.All(), show), func(i int) uint64 { return intHash(int64(i)) }, func(i int) string { return fmt.Sprint(val(i)) })
	mk := func(lg uint8, sp span) *tuple.ArrayOfNumbersUpdateSketch[float64] {
		s, err := tuple.NewArrayOfNumbersUpdateSketch[float64](uint8(nv), tuple.WithUpdateSketchLgK(lg))
		must(t, f, err)
		sp.each(func(i int) { _ = s.UpdateInt64(int64(i), val(i)) })
		return s
	}
	nat := aodNative.get(f.String(), func() *tuple.ArrayOfNumbersCompactSketch[float64] {
		s, err := mk(12, span{0, f.n}).Compact(true)
		must(t, f, err)
		return s
	})
	ts := func(s *tuple.ArrayOfNumbersCompactSketch[float64]) string { return tupShow(s, entries(s.All(), show)) }
	same(t, f, "content", ts(d), ts(nat))
	sp := drawSpan(t, "other", f.n, 20000)
	o := mk(uint8(vk.Int(t, "lgK", 5, 13)), sp)
	ulg := uint8(vk.Int(t, "ulgK", 5, 14))
	ops := func(x *tuple.ArrayOfNumbersCompactSketch[float64]) string {
		u, err := tuple.NewArrayOfNumbersSketchUnion[float64](addAon{}, uint8(nv), tuple.WithUnionLgK(ulg))
		must(t, f, err)
		must(t, f, u.Update(x))
		must(t, f, u.Update(o))
		ur, err := u.Result(true)
		must(t, f, err)
		in := tuple.NewArrayOfNumbersSketchIntersection[float64](addAon{}, uint8(nv))
		must(t, f, in.Update(o))
		must(t, f, in.Update(x))
		ir, err := in.Result(true)
		must(t, f, err)
		ab, err := tuple.ArrayOfNumbersSketchANotB[float64](x, o, seed, true)
		must(t, f, err)
		var w bytes.Buffer
		e := tuple.NewArrayOfNumbersSketchEncoder[float64](&w)
		must(t, f, e.Encode(ur))
		return ts(ur) + "\n" + ts(ir) + "\n" + ts(ab) + fmt.Sprintf("%x", w.Bytes())
	}
	same(t, f, "set operations", ops(d), ops(nat))
	if f.n > 0 {
		c.NT(f.String(), sp, ulg)
	}
	c.Sample("%s with %s", f, sp)
}

// stringsKey is the key of a string tuple: XXHash64 of the strings joined by commas, over the
// UTF-8 bytes in C++ and Go and over the UTF-16 characters in Java.
func stringsKey(ss []string, lang string) uint64 {
	b := []byte(strings.Join(ss, ","))
	if lang == "java" {
		var w []byte
		for _, c := range utf16.Encode([]rune(string(b))) {
			w = binary.LittleEndian.AppendUint16(w, c)
		}
		b = w
	}
	return ref.XXH64(b, 0x7A3CCA71)
}

type kv struct{ k, v []string }

func aosStream(f *img) func(i int) kv {
	switch {
	case f.name[:5] == "aos_1":
		return func(i int) kv { return kv{[]string{strconv.Itoa(i)}, []string{"value" + strconv.Itoa(i)}} }
	case f.name[:5] == "aos_3":
		return func(i int) kv {
			s := strconv.Itoa(i)
			return kv{[]string{s}, []string{"a" + s, "b" + s, "c" + s}}
		}
	}
	return func(i int) kv {
		return kv{[]string{"key" + strconv.Itoa(i), "subkey" + strconv.Itoa(i%10)}, []string{"value" + strconv.Itoa(i)}}
	}
}

var aosNative memo[*tuple.CompactSketch[*tuple.ArrayOfStringsSummary]]

func gAos(t *rapid.T, c *vk.Case) {
	all := slices.Concat(images(t, `aos_(?:1|3|multikey|multi_key)_n(\d+)`), images(t, `aos_(?:1_non_empty_no_entries|empty_strings|unicode|unicode_strings)`))
	f := all[vk.Int(t, "image", 0, len(all)-1)]
	c.Class(f.lang)
	d, err := tuple.Decode(f.data, seed, tuple.ArrayOfStringsSummaryReader)
	must(t, f, err)
	show := func(s *tuple.ArrayOfStringsSummary) string {
		var w bytes.Buffer
		_ = tuple.ArrayOfStringsSummaryWriter(&w, s)
		return string(w.Bytes())
	}
	showV := func(v []string) string {
		b := []byte{}
		n := uint32(5)
		for _, s := range v {
			n += 4 + uint32(len(s))
		}
		b = binary.LittleEndian.AppendUint32(b, n)
		b = append(b, byte(len(v)))
		for _, s := range v {
			b = append(binary.LittleEndian.AppendUint32(b, uint32(len(s))), s...)
		}
		return string(b)
	}
	key := func(k []string) uint64 {
		h, _ := ref.Murmur128(ref.LE64(stringsKey(k, f.lang)), seed)
		return h >> 1
	}
	var stream func(i int) kv
	n := f.n
	switch {
	case len(f.m) == 2:
		stream = aosStream(f)
	case f.name == "aos_1_non_empty_no_entries":
		if d.IsEmpty() || d.NumRetained() != 0 || d.Theta64() >= theta.MaxTheta {
			t.Fatalf("%s: empty=%v retained=%d theta=%d", f, d.IsEmpty(), d.NumRetained(), d.Theta64())
		}
		c.NT(f.String())
		return
	case f.name == "aos_empty_strings":
		n = 3
		stream = func(i int) kv {
			return []kv{{[]string{""}, []string{"empty_key_value"}}, {[]string{"empty_value_key"}, []string{""}}, {[]string{"", ""}, []string{"", ""}}}[i]
		}
	default:
		n = 3
		stream = func(i int) kv {
			return []kv{{[]string{"키", "열쇠"}, []string{"밸류", "값"}}, {[]string{"🔑", "🗝️"}, []string{"📦", "🎁"}}, {[]string{"ключ1", "ключ2"}, []string{"ценить1", "ценить2"}}}[i]
		}
	}
	g := *f
	g.n = n
	implied(t, &g, d.Theta64(), entries(d.All(), show), func(i int) uint64 { return key(stream(i).k) }, func(i int) string { return showV(stream(i).v) })
	mk := func(lg uint8, n int, sp span) *tuple.UpdateSketch[*tuple.ArrayOfStringsSummary, []string] {
		s, err := tuple.NewUpdateSketch[*tuple.ArrayOfStringsSummary, []string](tuple.NewArrayOfStringsSummaryFunc, tuple.WithUpdateSketchLgK(lg))
		must(t, f, err)
		sp.each(func(i int) {
			var e kv
			if n >= 0 {
				e = stream(i)
			} else {
				e = kv{[]string{strconv.Itoa(i)}, []string{"other" + strconv.Itoa(i)}}
			}
			k := tuple.GenerateHashKeyFromStrings(e.k)
			if g := stringsKey(e.k, "go"); g != k {
				t.Fatalf("key of %q: %d, expected %d", e.k, k, g)
			}
			if n >= 0 {
				k = stringsKey(e.k, f.lang)
			}
			_ = s.UpdateUint64(k, e.v)
		})
		return s
	}
	nat := aosNative.get(f.String(), func() *tuple.CompactSketch[*tuple.ArrayOfStringsSummary] {
		s, err := mk(12, n, span{0, n}).Compact(true)
		must(t, f, err)
		return s
	})
	ts := func(s *tuple.CompactSketch[*tuple.ArrayOfStringsSummary]) string {
		return tupShow(s, entries(s.All(), show))
	}
	same(t, f, "content", ts(d), ts(nat))
	sp := drawSpan(t, "other", n, 8000)
	o := mk(uint8(vk.Int(t, "lgK", 5, 13)), -1, sp)
	ulg := uint8(vk.Int(t, "ulgK", 5, 14))
	ops := func(x *tuple.CompactSketch[*tuple.ArrayOfStringsSummary]) string {
		u, err := tuple.NewUnion[*tuple.ArrayOfStringsSummary](keepAos{}, tuple.WithUnionLgK(ulg))
		must(t, f, err)
		must(t, f, u.Update(x))
		must(t, f, u.Update(o))
		ur, err := u.Result(true)
		must(t, f, err)
		ab, err := tuple.ANotB[*tuple.ArrayOfStringsSummary](o, x, seed, true)
		must(t, f, err)
		var w bytes.Buffer
		e := tuple.NewEncoder[*tuple.ArrayOfStringsSummary](&w, tuple.ArrayOfStringsSummaryWriter)
		must(t, f, e.Encode(ur))
		return ts(ur) + "\n" + ts(ab) + fmt.Sprintf("%x", w.Bytes())
	}
	same(t, f, "set operations", ops(d), ops(nat))
	// the inline summary reads the same images
	in, err := tuple.Decode(f.data, seed, tuple.ArrayOfStringsInlineSummaryReader)
	must(t, f, err)
	showIn := func(s tuple.ArrayOfStringsInlineSummary) string {
		var w bytes.Buffer
		_ = tuple.ArrayOfStringsInlineSummaryWriter(&w, s)
		return string(w.Bytes())
	}
	same(t, f, "content with inline summaries", tupShow(in, entries(in.All(), showIn)), ts(nat))
	if n > 0 {
		c.NT(f.String(), sp, ulg)
	}
	c.Sample("%s with %s", f, sp)
}
