package decoders_test

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"math"
	"reflect"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"slices"
	"strings"
	"syscall"

	"pgregory.net/rapid"

	"verif/vk"
)

// target is one decoding entry point.
type target struct {
	name   string
	make   func(g *gen) []byte                  // a valid image written by the library
	decode func(b []byte) (obj any, e error)    // the entry point
	use    func(obj any, sink *sink)            // every query, re-encoding and (X02) one update
	sum    func(obj any) string                 // the answers that identify the content
	extra  func(b []byte) int64                 // additional memory the image may legitimately declare
	stream func(r io.Reader) (obj any, e error) // same decoder reading from a stream, if it exists
	valid  func(b []byte) bool                  // optional: images outside the promise are skipped
	ftr    int                                  // trailing bytes beyond the image to tolerate in prefix checks
}

// gen draws through rapid and expands with a splitmix generator.
type gen struct {
	t *rapid.T
	p *vk.PRNG
}

func newGen(t *rapid.T) *gen { return &gen{t, vk.NewPRNG(rapid.Uint64().Draw(t, "content"))} }

// n is a size that is often small and sometimes crosses every internal mode boundary.
func (g *gen) n(max int) int {
	switch vk.Int(g.t, "ncls", 0, 5) {
	case 0:
		return 0
	case 1:
		return 1
	case 2:
		return 2 + g.p.Intn(30)
	}
	return g.p.Intn(max + 1)
}

func (g *gen) pick(vs ...int) int { return vs[g.p.Intn(len(vs))] }

// sink swallows results so that calls are not optimised away, and walks returned slices.
type sink struct{ h uint64 }

func (s *sink) add(v ...any) {
	for _, x := range v {
		switch y := x.(type) {
		case int64:
			s.h += uint64(y)
		case uint64:
			s.h += y
		case float64:
			s.h += math.Float64bits(y)
		case []byte:
			for _, b := range y {
				s.h += uint64(b)
			}
		case string:
			s.h += uint64(len(y))
		case error, nil:
		default:
			s.h++
		}
	}
}

var skipMethods = map[string]bool{"Reset": true, "Trim": true, "Invert": true}

// getters calls every exported method without parameters, except the mutators.
func (s *sink) getters(obj any) {
	v := reflect.ValueOf(obj)
	for i := 0; i < v.NumMethod(); i++ {
		m := v.Type().Method(i)
		if skipMethods[m.Name] || v.Method(i).Type().NumIn() != 0 {
			continue
		}
		for _, r := range v.Method(i).Call(nil) {
			if r.CanInterface() {
				s.add(r.Interface())
			}
		}
	}
}

var sample = []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}

func allocated() int64 { metrics.Read(sample); return int64(sample[0].Value.Uint64()) }

func cpu() float64 {
	var ru syscall.Rusage
	if syscall.Getrusage(1 /* RUSAGE_THREAD */, &ru) != nil {
		return 0
	}
	return float64(ru.Utime.Sec) + float64(ru.Utime.Usec)/1e6 + float64(ru.Stime.Sec) + float64(ru.Stime.Usec)/1e6
}

func trim(s string) string {
	if len(s) > 1500 {
		return s[:1500] + "..."
	}
	return s
}

func stackOf(st string) string {
	var out []string
	for _, l := range strings.Split(st, "\n") {
		if strings.Contains(l, "/repo/") || strings.Contains(l, "datasketches-go") {
			out = append(out, strings.TrimSpace(l))
		}
		if len(out) > 12 {
			break
		}
	}
	return strings.Join(out, "\n  ")
}

const (
	memDecode = 24 << 20
	memUse    = 256 << 20
	cpuLimit  = 10.0
)

// judge decodes and uses one image; it returns the object when the image was accepted and a
// description of what went wrong, if anything did.
func judge(tg *target, b []byte, full bool) (obj any, bad string) {
	vk.SaveCurrent(append([]byte(tg.name+": "), b...))
	in := slices.Clone(b)
	extra := int64(0)
	if tg.extra != nil {
		extra = tg.extra(b)
	}
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	a0, c0 := allocated(), cpu()
	phase := "decoding"
	defer func() {
		if p := recover(); p != nil {
			bad = fmt.Sprintf("panic while %s: %v\n  %s", phase, p, stackOf(string(debug.Stack())))
		}
	}()
	obj, err := tg.decode(in)
	a1, c1 := allocated(), cpu()
	if a1-a0 > memDecode+extra+400*int64(len(b)) {
		return nil, fmt.Sprintf("decoding %d bytes allocated %d bytes (err=%v)", len(b), a1-a0, err)
	}
	if c1-c0 > cpuLimit {
		return nil, fmt.Sprintf("decoding %d bytes took %.1f s", len(b), c1-c0)
	}
	if !bytes.Equal(in, b) {
		return nil, "decoding changed the caller's bytes"
	}
	if err != nil {
		return nil, ""
	}
	if obj == nil || reflect.ValueOf(obj).Kind() == reflect.Pointer && reflect.ValueOf(obj).IsNil() {
		return nil, "decoding returned neither an error nor a sketch"
	}
	if !full {
		return obj, ""
	}
	phase = "using the decoded sketch"
	var s sink
	tg.use(obj, &s)
	a2, c2 := allocated(), cpu()
	if a2-a1 > memUse+8*extra+20000*int64(len(b)) {
		return nil, fmt.Sprintf("using the sketch decoded from %d bytes allocated %d bytes", len(b), a2-a1)
	}
	if c2-c1 > cpuLimit {
		return nil, fmt.Sprintf("using the sketch decoded from %d bytes took %.1f s", len(b), c2-c1)
	}
	return obj, ""
}

func fail(t *rapid.T, tg *target, what string, b []byte, bad string) {
	t.Fatalf("%s, %s, %d bytes: %s\nimage: %s", tg.name, what, len(b), bad, trim(fmt.Sprintf("%x", b)))
}

var badBytes = []byte{0, 1, 2, 3, 4, 5, 7, 8, 9, 10, 12, 15, 16, 20, 21, 22, 25, 26, 27, 31, 32, 33, 62, 63, 64, 65, 96, 127, 128, 129, 192, 224, 254, 255}

func badInt(t *rapid.T, g *gen, label string, n int) uint64 {
	switch vk.Int(t, label+".k", 0, 9) {
	case 0:
		return 0
	case 1:
		return ^uint64(0)
	case 2:
		return uint64(1) << uint(vk.Int(t, label+".sh", 0, 63))
	case 3:
		return uint64(1)<<uint(vk.Int(t, label+".sh", 0, 63)) - 1
	case 4:
		return uint64(n + vk.Int(t, label+".d", -9, 9))
	case 5:
		return uint64(n/8 + vk.Int(t, label+".d", -9, 9))
	case 6:
		return uint64(vk.Int(t, label+".s", 0, 40))
	case 7:
		return []uint64{math.Float64bits(math.NaN()), math.Float64bits(math.Inf(1)), math.Float64bits(math.Inf(-1)), 1 << 63,
			math.Float64bits(1), math.Float64bits(-1), math.Float64bits(1e308), math.Float64bits(5e-324), 0x7f8000007fc00000, math.MaxInt64, math.MaxInt64 - 1}[vk.Int(t, label+".f", 0, 10)]
	case 8:
		return uint64(math.MaxUint32 - vk.Int(t, label+".s", 0, 8))
	}
	return g.p.U64()
}

// pos is an offset favouring the header.
func pos(t *rapid.T, label string, n int) int {
	if n <= 1 {
		return 0
	}
	switch vk.Int(t, label+".c", 0, 4) {
	case 0, 1, 2:
		return vk.Int(t, label, 0, min(n, 40)-1)
	case 3:
		return n - 1 - vk.Int(t, label, 0, min(n, 24)-1)
	}
	return vk.Int(t, label, 0, n-1)
}

// mutate applies a few structured corruptions.
func mutate(t *rapid.T, g *gen, tg *target, b []byte) ([]byte, string) {
	b = slices.Clone(b)
	desc := ""
	for i, k := 0, vk.Int(t, "nmut", 1, 4); i < k; i++ {
		l := fmt.Sprintf("m%d", i)
		op := vk.Int(t, l, 0, 9)
		if len(b) == 0 && op != 7 {
			continue
		}
		switch op {
		case 0, 1:
			p := pos(t, l+".p", len(b))
			b[p] = badBytes[vk.Int(t, l+".v", 0, len(badBytes)-1)]
			desc += fmt.Sprintf(" b[%d]=%#x", p, b[p])
		case 2:
			p, bit := pos(t, l+".p", len(b)), vk.Int(t, l+".v", 0, 7)
			b[p] ^= 1 << bit
			desc += fmt.Sprintf(" flip b[%d].%d", p, bit)
		case 3, 4, 5: // overwrite an aligned field
			w := []int{2, 4, 8, 4}[vk.Int(t, l+".w", 0, 3)]
			p := pos(t, l+".p", len(b)) / w * w
			v := badInt(t, g, l+".i", len(b))
			var f [8]byte
			binary.LittleEndian.PutUint64(f[:], v)
			copy(b[p:min(len(b), p+w)], f[:])
			desc += fmt.Sprintf(" u%d[%d]=%#x", 8*w, p, v)
		case 6:
			n := vk.Int(t, l+".n", 0, len(b))
			b = b[:n]
			desc += fmt.Sprintf(" cut %d", n)
		case 7:
			n := vk.Int(t, l+".n", 1, 40)
			for j := 0; j < n; j++ {
				b = append(b, byte(g.p.U64()))
			}
			desc += fmt.Sprintf(" append %d", n)
		case 8: // header of one image, rest of another
			o := tg.make(g)
			p := min(pos(t, l+".p", len(b)), len(o))
			b = append(b[:p:p], o[p:]...)
			desc += fmt.Sprintf(" splice at %d", p)
		case 9: // delete or duplicate a piece
			p := pos(t, l+".p", len(b))
			n := min(vk.Int(t, l+".n", 1, 16), len(b)-p)
			if vk.Int(t, l+".v", 0, 1) == 0 {
				b = append(b[:p:p], b[p+n:]...)
				desc += fmt.Sprintf(" delete %d+%d", p, n)
			} else {
				b = slices.Concat(b[:p+n], b[p:])
				desc += fmt.Sprintf(" repeat %d+%d", p, n)
			}
		}
	}
	return b, desc
}

func pickTarget(t *rapid.T, tgs []*target) *target {
	return tgs[vk.Int(t, "target", 0, len(tgs)-1)]
}

func (tg *target) skip(b []byte) bool { return tg.valid != nil && !tg.valid(b) }

// fuzz: arbitrary corruption of a valid image.
func fuzz(tgs []*target) func(t *rapid.T, c *vk.Case) {
	return func(t *rapid.T, c *vk.Case) {
		tg := pickTarget(t, tgs)
		g := newGen(t)
		b, desc := mutate(t, g, tg, tg.make(g))
		if tg.skip(b) {
			c.Class(tg.name + " skipped")
			return
		}
		obj, bad := judge(tg, b, true)
		if bad != "" {
			fail(t, tg, "mutated image ("+desc+" )", b, bad)
		}
		c.NT(tg.name, string(b))
		if obj != nil {
			c.Class(tg.name + " accepted")
		} else {
			c.Class(tg.name + " rejected")
		}
		if c.WantSample() {
			c.Sample("%s:%s, %d bytes, accepted=%v", tg.name, desc, len(b), obj != nil)
		}
	}
}

// sweep: every value of one header byte of a valid image.
func sweep(tgs []*target) func(t *rapid.T, c *vk.Case) {
	return func(t *rapid.T, c *vk.Case) {
		tg := pickTarget(t, tgs)
		g := newGen(t)
		b := tg.make(g)
		p := vk.Int(t, "pos", 0, 47)
		if p >= len(b) {
			p %= len(b)
		}
		acc := 0
		orig := b[p]
		for v := 0; v < 256; v++ {
			b[p] = byte(v)
			if tg.skip(b) {
				continue
			}
			obj, bad := judge(tg, b, true)
			if bad != "" {
				fail(t, tg, fmt.Sprintf("byte %d changed from %#x to %#x", p, orig, v), b, bad)
			}
			if obj != nil {
				acc++
			}
		}
		b[p] = orig
		c.NT(tg.name, p, string(b))
		c.Class(tg.name)
		if c.WantSample() {
			c.Sample("%s: byte %d of %d, %d of 256 values accepted", tg.name, p, len(b), acc)
		}
	}
}

// prefix: every proper prefix of a valid image is rejected or read as the same content, and the
// full image is accepted however a stream delivers it.
func prefix(tgs []*target) func(t *rapid.T, c *vk.Case) {
	return func(t *rapid.T, c *vk.Case) {
		tg := pickTarget(t, tgs)
		g := newGen(t)
		b := tg.make(g)
		obj, bad := judge(tg, b, false)
		if bad != "" || obj == nil {
			fail(t, tg, "valid image", b, fmt.Sprintf("not accepted %s", bad))
		}
		want := tg.sum(obj)
		ls := []int{}
		if len(b) <= 220 {
			for i := 0; i < len(b); i++ {
				ls = append(ls, i)
			}
		} else {
			for i := 0; i < 90; i++ {
				ls = append(ls, i, len(b)-1-i)
			}
			for i := 0; i < 30; i++ {
				ls = append(ls, g.p.Intn(len(b)))
			}
		}
		acc := 0
		for _, n := range ls {
			o, bad := judge(tg, b[:n:n], true)
			if bad != "" {
				fail(t, tg, fmt.Sprintf("first %d of %d bytes", n, len(b)), b, bad)
			}
			if o == nil {
				continue
			}
			acc++
			if got := tg.sum(must(tg, b[:n:n])); got != want {
				fail(t, tg, fmt.Sprintf("first %d of %d bytes", n, len(b)), b, "accepted as a different sketch:\n  "+trim(got)+"\n  instead of\n  "+trim(want))
			}
		}
		if tg.stream != nil {
			for _, m := range []int{1, 3, 7, 1 << 20} {
				o, err := tg.stream(&chunked{b: b, m: m, eof: g.p.Intn(2) == 0})
				if err != nil {
					fail(t, tg, fmt.Sprintf("read from a stream in pieces of %d bytes", m), b, err.Error())
				}
				if got := tg.sum(o); got != want {
					fail(t, tg, fmt.Sprintf("read from a stream in pieces of %d bytes", m), b, "differs:\n  "+trim(got)+"\n  instead of\n  "+trim(want))
				}
			}
			if len(b) > 0 {
				n := g.p.Intn(len(b))
				if o, err := tg.stream(&chunked{b: b[:n], m: 5, err: errBroken}); err == nil && tg.sum(o) != want {
					fail(t, tg, fmt.Sprintf("stream failing after %d of %d bytes", n, len(b)), b, "accepted as a different sketch: "+trim(tg.sum(o)))
				}
			}
			c.Class(tg.name + " stream")
		}
		c.NT(tg.name, string(b))
		c.Class(tg.name)
		if c.WantSample() {
			c.Sample("%s: image of %d bytes, %d prefixes tried, %d accepted with equal content", tg.name, len(b), len(ls), acc)
		}
	}
}

func must(tg *target, b []byte) any {
	o, err := tg.decode(slices.Clone(b))
	if err != nil {
		panic(err)
	}
	return o
}

var errBroken = fmt.Errorf("stream broke")

// chunked delivers m bytes at a time.
type chunked struct {
	b   []byte
	m   int
	eof bool // report io.EOF together with the last bytes
	err error
}

func (r *chunked) Read(p []byte) (int, error) {
	if len(r.b) == 0 {
		if r.err != nil {
			return 0, r.err
		}
		return 0, io.EOF
	}
	n := copy(p[:min(len(p), r.m)], r.b)
	r.b = r.b[n:]
	if len(r.b) == 0 && r.eof && r.err == nil {
		return n, io.EOF
	}
	return n, nil
}

// noise: unstructured bytes, optionally behind a plausible preamble.
func noise(tgs []*target) func(t *rapid.T, c *vk.Case) {
	return func(t *rapid.T, c *vk.Case) {
		tg := pickTarget(t, tgs)
		g := newGen(t)
		keep := 0
		if vk.Chance(t, "keep", 3, 4) {
			keep = vk.Int(t, "keepn", 1, 32)
		}
		src := tg.make(g)
		b := slices.Clone(src[:min(keep, len(src))])
		n := vk.Size(t, "len", 0, 300)
		style := vk.Int(t, "style", 0, 3)
		for len(b) < n {
			switch style {
			case 0:
				b = append(b, byte(g.p.U64()))
			case 1:
				b = append(b, 0)
			case 2:
				b = append(b, 0xff)
			default:
				b = append(b, badBytes[g.p.Intn(len(badBytes))])
			}
		}
		if tg.skip(b) {
			return
		}
		obj, bad := judge(tg, b, true)
		if bad != "" {
			fail(t, tg, "unstructured bytes", b, bad)
		}
		if len(b) >= 8 {
			c.NT(tg.name, string(b))
		}
		if obj != nil {
			c.Class(tg.name + " accepted")
		} else {
			c.Class(tg.name + " rejected")
		}
	}
}
