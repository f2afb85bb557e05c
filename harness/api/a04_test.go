package api

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"testing"

	"github.com/apache/datasketches-go/common"
	"github.com/apache/datasketches-go/count"
	"github.com/apache/datasketches-go/sampling"
	"github.com/apache/datasketches-go/tdigest"
	"github.com/apache/datasketches-go/theta"
	"github.com/apache/datasketches-go/tuple"
	"pgregory.net/rapid"

	"verif/vk"
)

// A04: encoders and decoders over io.Writer and io.Reader streams that fail.

var errFault = errors.New("injected fault")

// faultyWriter accepts bytes up to position at, then fails: once or for good, taking the bytes before at or none of the
// failing write.
type faultyWriter struct {
	got           []byte
	at            int
	forGood, part bool
	failed        bool
	writes        int
}

func (w *faultyWriter) Write(p []byte) (int, error) {
	w.writes++
	if w.failed && !w.forGood {
		w.got = append(w.got, p...)
		return len(p), nil
	}
	if w.failed || len(w.got)+len(p) > w.at {
		n := 0
		if w.part && !w.failed {
			n = w.at - len(w.got)
			w.got = append(w.got, p[:n]...)
		}
		w.failed = true
		return n, errFault
	}
	w.got = append(w.got, p...)
	return len(p), nil
}

// faultyReader delivers b in pieces of at most step bytes and fails when position at is to be read, once or for good.
type faultyReader struct {
	b       []byte
	pos, at int
	step    int
	forGood bool
	failed  bool
}

func (r *faultyReader) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if r.pos == r.at && (!r.failed || r.forGood) {
		r.failed = true
		return 0, errFault
	}
	if r.pos >= len(r.b) {
		return 0, io.EOF
	}
	n := min(len(p), r.step, len(r.b)-r.pos)
	if !r.failed && r.pos < r.at {
		n = min(n, r.at-r.pos)
	}
	copy(p, r.b[r.pos:r.pos+n])
	r.pos += n
	return n, nil
}

type stream struct {
	name   string
	encode func(io.Writer) error
	decode func(io.Reader) ([]byte, error) // re-encoded; nil when there is no stream decoder
}

type strSk = tuple.CompactSketch[*tuple.ArrayOfStringsSummary]

func a04Stream(t *rapid.T) stream {
	kind := vk.Pick(t, "kind", "theta", "thetac", "tuple", "aon", "aos", "tdigest", "tdigestbuf", "varopt", "voptunion", "countmin")
	n := vk.Size(t, "n", 0, 300)
	seed := rapid.Uint64().Draw(t, "items")
	item := func(i int) int64 { return int64(vk.Mix(seed + uint64(i))) }
	lgK := uint8(vk.Int(t, "lgk", 5, 8))
	ordered := vk.Chance(t, "ordered", 1, 2)
	full := func(enc func(io.Writer) error) ([]byte, error) {
		var w bytes.Buffer
		err := enc(&w)
		return w.Bytes(), err
	}
	switch kind {
	case "theta", "thetac":
		s := must(theta.NewQuickSelectUpdateSketch(theta.WithUpdateSketchLgK(lgK)))(t, "theta")
		for i := 0; i < n; i++ {
			_ = s.UpdateInt64(item(i))
		}
		k := s.Compact(ordered)
		enc := func(k *theta.CompactSketch) func(io.Writer) error {
			return func(w io.Writer) error { e := theta.NewEncoder(w, kind == "thetac"); return e.Encode(k) }
		}
		return stream{kind, enc(k), func(r io.Reader) ([]byte, error) {
			d := theta.NewDecoder(theta.DefaultSeed)
			x, err := d.Decode(r)
			if err != nil {
				return nil, err
			}
			return full(enc(x))
		}}
	case "tuple":
		s := must(tuple.NewUpdateSketch[*sum, int64](func() *sum { return &sum{} }, tuple.WithUpdateSketchLgK(lgK)))(t, "tuple")
		for i := 0; i < n; i++ {
			_ = s.UpdateInt64(item(i), int64(i))
		}
		k := must(s.Compact(ordered))(t, "compact")
		wr := func(w io.Writer, x *sum) error {
			b := []byte{byte(x.v), byte(x.v >> 8), byte(x.n)}
			_, err := w.Write(b)
			return err
		}
		rd := func(r io.Reader) (*sum, error) {
			b := make([]byte, 3)
			if _, err := io.ReadFull(r, b); err != nil {
				return nil, err
			}
			return &sum{v: int64(b[0]) | int64(b[1])<<8, n: int64(b[2])}, nil
		}
		enc := func(k *tuple.CompactSketch[*sum]) func(io.Writer) error {
			return func(w io.Writer) error { e := tuple.NewEncoder[*sum](w, wr); return e.Encode(k) }
		}
		return stream{kind, enc(k), func(r io.Reader) ([]byte, error) {
			d := tuple.NewDecoder[*sum](theta.DefaultSeed, rd)
			x, err := d.Decode(r)
			if err != nil {
				return nil, err
			}
			return full(enc(x))
		}}
	case "aos":
		s := must(tuple.NewUpdateSketch[*tuple.ArrayOfStringsSummary, []string](tuple.NewArrayOfStringsSummaryFunc, tuple.WithUpdateSketchLgK(lgK)))(t, "aos")
		for i := 0; i < n; i++ {
			_ = s.UpdateInt64(item(i), []string{"x", fmt.Sprint(i), ""}[:i%4])
		}
		k := must(s.Compact(ordered))(t, "compact")
		enc := func(k *strSk) func(io.Writer) error {
			return func(w io.Writer) error {
				e := tuple.NewEncoder[*tuple.ArrayOfStringsSummary](w, tuple.ArrayOfStringsSummaryWriter)
				return e.Encode(k)
			}
		}
		return stream{kind, enc(k), func(r io.Reader) ([]byte, error) {
			d := tuple.NewDecoder[*tuple.ArrayOfStringsSummary](theta.DefaultSeed, tuple.ArrayOfStringsSummaryReader)
			x, err := d.Decode(r)
			if err != nil {
				return nil, err
			}
			return full(enc(x))
		}}
	case "aon":
		nv := uint8(vk.Int(t, "values", 1, 4))
		s := must(tuple.NewArrayOfNumbersUpdateSketch[float64](nv, tuple.WithUpdateSketchLgK(lgK)))(t, "aon")
		for i := 0; i < n; i++ {
			_ = s.UpdateInt64(item(i), make([]float64, nv))
		}
		k := must(s.Compact(ordered))(t, "compact")
		enc := func(k *tuple.ArrayOfNumbersCompactSketch[float64]) func(io.Writer) error {
			return func(w io.Writer) error { e := tuple.NewArrayOfNumbersSketchEncoder[float64](w); return e.Encode(k) }
		}
		return stream{kind, enc(k), func(r io.Reader) ([]byte, error) {
			d := tuple.NewArrayOfNumbersSketchDecoderDecoder[float64](theta.DefaultSeed)
			x, err := d.Decode(r)
			if err != nil {
				return nil, err
			}
			return full(enc(x))
		}}
	case "tdigest", "tdigestbuf":
		s := must(tdigest.NewDouble(uint16(vk.Int(t, "k", 10, 60))))(t, "tdigest")
		for i := 0; i < n; i++ {
			if err := s.Update(float64(item(i) >> 40)); err != nil {
				t.Fatalf("tdigest update: %v", err)
			}
		}
		enc := func(s *tdigest.Double) func(io.Writer) error {
			return func(w io.Writer) error { e := tdigest.NewDoubleEncoder(w, kind == "tdigestbuf"); return e.Encode(s) }
		}
		return stream{kind, enc(s), func(r io.Reader) ([]byte, error) {
			d := tdigest.NewDoubleDecoder()
			x, err := d.Decode(r)
			if err != nil {
				return nil, err
			}
			return full(enc(x))
		}}
	case "varopt", "voptunion":
		serde := common.ItemSketchLongSerDe{}
		mk := func(n int) *sampling.VarOptItemsSketch[int64] {
			s := must(sampling.NewVarOptItemsSketch[int64](uint(vk.Int(t, "k", 1, 40))))(t, "varopt")
			for i := 0; i < n; i++ {
				if err := s.Update(item(i), 1+float64(uint64(item(i))%64)); err != nil {
					t.Fatalf("varopt update: %v", err)
				}
			}
			return s
		}
		if kind == "varopt" {
			s := mk(n)
			return stream{kind, func(w io.Writer) error {
				e := sampling.NewVarOptItemsSketchEncoder[int64](w, serde)
				return e.Encode(s)
			}, nil}
		}
		u := must(sampling.NewVarOptItemsUnion[int64](uint(vk.Int(t, "maxk", 1, 40))))(t, "union")
		for j := vk.Int(t, "sketches", 0, 3); j > 0; j-- {
			if err := u.Update(mk(n)); err != nil {
				t.Fatalf("union update: %v", err)
			}
		}
		return stream{kind, func(w io.Writer) error {
			e := sampling.NewVarOptItemsUnionEncoder[int64](w, serde)
			return e.Encode(u)
		}, nil}
	}
	s := must(count.NewCountMinSketch(int8(vk.Int(t, "hashes", 1, 5)), int32(vk.Int(t, "buckets", 3, 40)), 9001))(t, "countmin")
	for i := 0; i < n; i++ {
		if err := s.UpdateUint64(uint64(item(i)), int64(i%7)); err != nil {
			t.Fatalf("count-min update: %v", err)
		}
	}
	return stream{"countmin", s.Serialize, nil}
}

func a04Faults(t *rapid.T, c *vk.Case) {
	s := a04Stream(t)
	var buf bytes.Buffer
	if err := s.encode(&buf); err != nil {
		t.Fatalf("%s: encoding: %v", s.name, err)
	}
	img := bytes.Clone(buf.Bytes())

	// a writer failing at each of some positions
	at := []int{0, len(img) - 1}
	for i := vk.Int(t, "positions", 1, 12); i > 0; i-- {
		at = append(at, vk.Int(t, "at", 0, len(img)-1))
	}
	for p := 1; p <= 64; p++ {
		at = append(at, p)
	}
	writes := 0
	for _, p := range at {
		if p >= len(img) {
			continue
		}
		for mode := 0; mode < 4; mode++ {
			w := &faultyWriter{at: p, forGood: mode&1 == 1, part: mode&2 == 2}
			if err := s.encode(w); err == nil {
				t.Fatalf("%s: a write failed at byte %d of %d (for good %v, partly %v) and encoding reports success", s.name, p, len(img), w.forGood, w.part)
			}
			if k := min(len(w.got), p); !bytes.Equal(w.got[:k], img[:k]) {
				t.Fatalf("%s: bytes written before the fault at %d are not those of the image: %x, image %x", s.name, p, w.got[:k], img)
			}
			writes = max(writes, w.writes)
		}
	}
	buf.Reset()
	if err := s.encode(&buf); err != nil || !bytes.Equal(buf.Bytes(), img) {
		t.Fatalf("%s: after failed encodings the image is %x (%v), before %x", s.name, buf.Bytes(), err, img)
	}

	if s.decode != nil {
		for _, p := range at {
			if p >= len(img) {
				continue
			}
			for mode := 0; mode < 4; mode++ {
				r := &faultyReader{b: img, at: p, forGood: mode&1 == 1, step: 1 << 30}
				if mode&2 == 2 {
					r.step = 1 + p%9
				}
				if _, err := s.decode(r); err == nil {
					t.Fatalf("%s: the reader failed at byte %d of %d (for good %v, in steps of %d) and decoding reports success", s.name, p, len(img), r.forGood, r.step)
				}
			}
		}
		for _, step := range []int{1, 3, 1 << 30} {
			back, err := s.decode(&faultyReader{b: img, at: -1, step: step})
			if err != nil || !bytes.Equal(back, img) {
				t.Fatalf("%s: read in steps of %d: re-encoded to %x (%v), image %x", s.name, step, back, err, img)
			}
		}
	}
	c.Class(s.name)
	if len(img) > 8 {
		c.NT(s.name, len(img), writes, s.decode != nil)
	}
	c.Sample("%s: image of %d bytes, faults at %v", s.name, len(img), at[:min(6, len(at))])
}

// a04Callbacks: the summary writers and readers a caller supplies.
func a04Callbacks(t *rapid.T, c *vk.Case) {
	n := vk.Int(t, "n", 1, 60)
	ordered := vk.Chance(t, "ordered", 1, 2)
	s := must(tuple.NewUpdateSketch[*sum, int64](func() *sum { return &sum{} }))(t, "tuple")
	for i := 0; i < n; i++ {
		if err := s.UpdateInt64(int64(i), int64(i)); err != nil {
			t.Fatalf("update: %v", err)
		}
	}
	k := must(s.Compact(ordered))(t, "compact")
	bad := vk.Int(t, "bad", 0, n) // the call that fails; n: none
	calls := 0
	var buf bytes.Buffer
	enc := tuple.NewEncoder[*sum](&buf, func(w io.Writer, x *sum) error {
		if calls++; calls-1 == bad {
			return errFault
		}
		_, err := w.Write([]byte{byte(x.v)})
		return err
	})
	err := enc.Encode(k)
	if (err == nil) != (bad == n) {
		t.Fatalf("summary writer failing at call %d of %d: Encode says %v", bad, n, err)
	}
	if err == nil && calls != n {
		t.Fatalf("summary writer called %d times for %d entries", calls, n)
	}
	buf.Reset()
	bad, calls = n, 0
	if err := enc.Encode(k); err != nil {
		t.Fatalf("encode: %v", err)
	}
	img := bytes.Clone(buf.Bytes())
	bad = vk.Int(t, "badread", 0, n)
	for _, slice := range []bool{true, false} {
		calls = 0
		rd := func(r io.Reader) (*sum, error) {
			if calls++; calls-1 == bad {
				// as a reader does that gives up, after taking its byte
				_, _ = io.ReadFull(r, make([]byte, 1))
				return nil, errFault
			}
			b := make([]byte, 1)
			if _, err := io.ReadFull(r, b); err != nil {
				return nil, err
			}
			return &sum{v: int64(b[0]), n: 1}, nil
		}
		var x *tuple.CompactSketch[*sum]
		var err error
		if slice {
			x, err = tuple.Decode[*sum](img, theta.DefaultSeed, rd)
		} else {
			d := tuple.NewDecoder[*sum](theta.DefaultSeed, rd)
			x, err = d.Decode(bytes.NewReader(img))
		}
		if (err == nil) != (bad == n) {
			t.Fatalf("summary reader failing at call %d of %d: decoding says %v", bad, n, err)
		}
		if err != nil {
			continue
		}
		if calls != n || x.NumRetained() != uint32(n) {
			t.Fatalf("%d entries: summary reader called %d times, decoded %d", n, calls, x.NumRetained())
		}
	}
	c.NT(n, bad)
	c.Sample("%d entries, writer and reader failing at calls", n)
}

func TestA04(t *testing.T) {
	vk.Property(t, "A04", "an image longer than the empty one, or a failing callback",
		vk.Sub{Name: "faults", Quick: 6000, Thorough: 60000, Fn: a04Faults},
		vk.Sub{Name: "callbacks", Quick: 4000, Thorough: 30000, Fn: a04Callbacks},
	)
}
