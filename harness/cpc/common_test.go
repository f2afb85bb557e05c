package cpc_test

import (
	"encoding/binary"
	"fmt"
	"math"
	"math/bits"
	"slices"

	"github.com/apache/datasketches-go/cpc"
	"pgregory.net/rapid"

	"verif/ref"
	"verif/vk"
)

// ---------------------------------------------------------------- inputs

// couponOf is the documented coupon of an input: a row and a column.
func couponOf(x in, lgK int, seed uint64) (row, col int) {
	lo, hi := ref.Murmur128(x.bytes(), seed)
	if x.kind == 6 {
		lo, hi = ref.MurmurInts(x.bytes(), seed)
	}
	return int(lo & (1<<lgK - 1)), min(bits.LeadingZeros64(hi), 63)
}

type in struct {
	kind int // 0 uint64, 1 int64, 2 float64, 3 bytes, 4 string, 5 []int64, 6 []int32
	u    uint64
	b    []byte
}

func (x in) apply(s *cpc.CpcSketch) error {
	switch x.kind {
	case 0:
		return s.UpdateUint64(x.u)
	case 1:
		return s.UpdateInt64(int64(x.u))
	case 2:
		return s.UpdateFloat64(math.Float64frombits(x.u))
	case 3:
		return s.UpdateByteSlice(x.b)
	case 4:
		return s.UpdateString(string(x.b))
	case 5:
		v := make([]int64, len(x.b)/8)
		for i := range v {
			v[i] = int64(binary.LittleEndian.Uint64(x.b[8*i:]))
		}
		return s.UpdateInt64Slice(v)
	}
	v := make([]int32, len(x.b)/4)
	for i := range v {
		v[i] = int32(binary.LittleEndian.Uint32(x.b[4*i:]))
	}
	return s.UpdateInt32Slice(v)
}

// bytes is the canonical content of the input that is hashed.
func (x in) bytes() []byte {
	switch x.kind {
	case 0, 1:
		return ref.LE64(x.u)
	case 2:
		return ref.LE64(ref.CanonDouble(math.Float64frombits(x.u)))
	case 5:
		return x.b[:len(x.b)&^7]
	case 6:
		return x.b[:len(x.b)&^3]
	}
	return x.b
}

// withCoupon returns an input with the given row (low bits) and column.
func withCoupon(row, col, lgK int, seed uint64, p *vk.PRNG) in {
	hi := p.U64()
	if col >= 63 {
		hi &= 1
	} else {
		hi = hi>>col | 1<<(63-col)
		if col > 0 {
			hi &= 1<<(64-col) - 1
		}
	}
	lo := p.U64()&^(1<<lgK-1) | uint64(row)
	return in{kind: 3 + p.Intn(4), b: ref.Preimage16(lo, hi, seed)}
}

// stream is a compact description of an input stream.
type stream struct {
	Kind string
	N    int
	Seed uint64
	A, B int
}

func (s stream) String() string {
	return fmt.Sprintf("%s(n=%d,a=%d,b=%d,seed=%d)", s.Kind, s.N, s.A, s.B, s.Seed)
}

func drawStream(t *rapid.T, lgK, maxN int) stream {
	s := stream{
		Kind: vk.Pick(t, "kind", "ints", "ints", "mixed", "uniform", "skew", "fill", "fill", "late", "dups", "holes", "top", "stride"),
		Seed: uint64(vk.Int(t, "seed", 0, 1<<24)),
		A:    vk.Int(t, "a", 0, 40),
		B:    vk.Int(t, "b", 0, 40),
	}
	k := 1 << lgK
	switch vk.Int(t, "size", 0, 6) {
	case 0:
		s.N = vk.Int(t, "n", 0, 12)
	case 1: // around the end of the sparse phase
		s.N = min(maxN, max(0, 3*k/32+vk.Int(t, "dn", -2, 4)))
	case 2:
		s.N = vk.Int(t, "n", 0, min(maxN, k/2+2))
	case 3:
		s.N = vk.Int(t, "n", 0, min(maxN, 8*k))
	default:
		s.N = vk.Int(t, "n", 0, maxN)
	}
	return s
}

// expand calls f for each input of the stream. lgK shapes the crafted kinds.
func (s stream) expand(lgK int, seed uint64, f func(in)) {
	p := vk.NewPRNG(s.Seed)
	k := 1 << lgK
	row := func() int { return p.Intn(k) }
	geom := func() int { return bits.LeadingZeros64(p.U64() | 1) }
	var pool [][2]int
	craft := func(r, c int) { f(withCoupon(r, min(63, c), lgK, seed, p)) }
	for i := 0; i < s.N; i++ {
		switch s.Kind {
		case "ints":
			f(in{kind: int(s.Seed & 1), u: s.Seed<<20 + uint64(i)})
		case "mixed":
			r := p.U64()
			n := int(r>>50) % 40
			switch r >> 60 {
			case 0, 1, 2:
				f(in{kind: 0, u: r % 5000})
				continue
			case 3, 4:
				f(in{kind: 1, u: -(r % 3000)})
				continue
			case 5, 6:
				v := []uint64{0, 1 << 63, 0x7ff0000000000000, 0xfff0000000000000, 0x7ff8000000000000, 0x7ff0000000000001, 0xffffffffffffffff, 0xfff8000000000000, 0xfff0000000000001}
				u := math.Float64bits(float64(int64(r%4000) - 1000))
				if j := int(r>>20) % 20; j < len(v) {
					u = v[j]
				}
				f(in{kind: 2, u: u})
				continue
			case 7:
				n = 0
			case 15:
				n = int(r>>40) % 200
			}
			b := make([]byte, n)
			for j := range b {
				b[j] = byte(p.U64()%3) * 0x7f
			}
			f(in{kind: 3 + int(r>>55)&3, b: b})
		case "uniform": // every column equally likely
			craft(row(), p.Intn(64))
		case "skew": // low columns never, the rest as usual
			craft(row(), geom()+s.A/3)
		case "fill": // rows in order, columns rising, some far ahead
			c := i / k
			if p.Intn(2+s.A%7) == 0 {
				c += 5 + p.Intn(12)
			}
			craft(i%k, c)
		case "late": // only columns past the first window
			craft(row(), 8+s.A%20+p.Intn(1+s.B))
		case "dups":
			if len(pool) == 0 || p.Intn(4) == 0 && len(pool) < 60 {
				pool = append(pool, [2]int{row(), geom()})
			}
			q := pool[p.Intn(len(pool))]
			craft(q[0], q[1])
		case "holes": // as fill, leaving gaps that are filled at the end
			c, r := i/k, i%k
			if i > s.N*3/4 {
				c, r = p.Intn(1+s.N/k), row()
			} else if vk.Mix(uint64(i)^s.Seed)%uint64(3+s.B) == 0 {
				continue
			}
			craft(r, c)
		case "stride": // rows that meet when the sketch is downsampled
			craft(p.Intn(k)>>(s.A%lgK)<<(s.A%lgK), geom()%(1+s.B))
		case "top": // all columns of few rows
			craft(p.Intn(min(k, 1+s.B)), p.Intn(64))
		}
	}
}

// ---------------------------------------------------------------- model

// model is what the inputs determine: the set of (row, column) coupons.
type model struct {
	lgK  int
	seed uint64
	rows []uint64
	n    int

	// historic inverse probability estimate, valid in input order
	hip    float64
	x0, x1 float64 // sum of 2^-(col+1) over absent coupons, in two exact parts
}

func newModel(lgK int, seed uint64) *model {
	k := 1 << lgK
	return &model{lgK: lgK, seed: seed, rows: make([]uint64, k),
		x0: float64(k) * (1 - math.Ldexp(1, -32)), x1: float64(k) * math.Ldexp(1, -32)}
}

func (m *model) clone() *model {
	c := *m
	c.rows = slices.Clone(m.rows)
	return &c
}

func (m *model) kxp() float64 { return m.x0 + m.x1 }

func (m *model) offer(row, col int) {
	if m.rows[row]>>col&1 == 1 {
		return
	}
	m.rows[row] |= 1 << col
	m.n++
	m.hip += float64(int(1)<<m.lgK) / m.kxp()
	if col < 32 {
		m.x0 -= math.Ldexp(1, -col-1)
	} else {
		m.x1 -= math.Ldexp(1, -col-1)
	}
}

// full tells that one more coupon could reach the most coupons a sketch can
// hold (59 and a bit for each row), which takes about K * 2^58 distinct inputs.
func (m *model) full() bool { return m.n+1 >= 59<<m.lgK }

func (m *model) feed(x in) {
	if len(x.bytes()) > 0 {
		r, c := couponOf(x, m.lgK, m.seed)
		m.offer(r, c)
	}
}

// fold ors the coupons of o, which has at least the same lgK, into m.
func (m *model) fold(rows []uint64) {
	for r, w := range rows {
		m.rows[r&(1<<m.lgK-1)] |= w
	}
	m.recount()
}

func (m *model) recount() {
	m.n = 0
	for _, w := range m.rows {
		m.n += bits.OnesCount64(w)
	}
}

const (
	fEmpty = iota
	fSparse
	fHybrid
	fPinned
	fSliding
)

func flavor(lgK, n int) int {
	k := 1 << lgK
	switch {
	case n == 0:
		return fEmpty
	case 32*n < 3*k:
		return fSparse
	case 2*n < k:
		return fHybrid
	case 8*n < 27*k:
		return fPinned
	}
	return fSliding
}

func flavorName(f int) string {
	return [...]string{"empty", "sparse", "hybrid", "pinned", "sliding"}[f]
}

func offset(lgK, n int) int {
	k := 1 << lgK
	if 8*n < 19*k {
		return 0
	}
	return (8*n - 19*k) / (8 * k)
}

func near(a, b float64) bool {
	return a == b || math.Abs(a-b) <= 1e-6*max(math.Abs(a), math.Abs(b))
}

// ---------------------------------------------------------------- wire format

type image struct {
	lgK, fiCol, n int
	seedHash      uint16
	merged        bool
	kxp, hip      float64
	rows          []uint64
}

type bitReader struct {
	w   []byte // whole 32-bit words
	pos int
}

func (r *bitReader) bit() int {
	if r.pos>>3 >= len(r.w) {
		r.pos++
		return 0 // reading past the end is checked by the caller
	}
	b := int(r.w[r.pos>>3]>>(r.pos&7)) & 1
	r.pos++
	return b
}

func (r *bitReader) bits(n int) int {
	v := 0
	for i := 0; i < n; i++ {
		v |= r.bit() << i
	}
	return v
}

// symbol decodes one prefix-code symbol.
func (r *bitReader) symbol(dec map[[2]int]int) (int, error) {
	v := 0
	for l := 1; l <= 12; l++ {
		v |= r.bit() << (l - 1)
		if s, ok := dec[[2]int{l, v}]; ok {
			return s, nil
		}
	}
	return 0, fmt.Errorf("no such code")
}

// done checks that the stream was not overrun and holds no needless words.
func (r *bitReader) done(pad int) error {
	words := len(r.w) / 4
	if want := (r.pos + pad + 31) / 32; words != want {
		return fmt.Errorf("stream of %d words, %d bits used with %d of padding", words, r.pos, pad)
	}
	return nil
}

func decodeTable(enc []uint16) map[[2]int]int {
	m := map[[2]int]int{}
	for s, e := range enc {
		m[[2]int{int(e >> 12), int(e & 0xfff)}] = s
	}
	return m
}

var (
	decUnary = decodeTable(refUnary[:])
	decBytes = func() (t [22]map[[2]int]int) {
		for i := range t {
			t[i] = decodeTable(refBytes[i*256 : i*256+256])
		}
		return
	}()
)

// phase selects the byte table.
func phase(lgK, n int) int {
	k := float64(int(1) << lgK)
	c := float64(n)
	switch {
	case c*1000 >= 2375*k:
		return n >> (lgK - 4) & 15
	case 4*c < 3*k:
		return 16
	case 10*c < 11*k:
		return 17
	case 100*c < 132*k:
		return 18
	case 3*c < 5*k:
		return 19
	case 1000*c < 1965*k:
		return 20
	case 1000*c < 2275*k:
		return 21
	}
	return 6
}

func golombBits(k, n int) int {
	q := k / n
	if q == 0 {
		return 0
	}
	return bits.Len(uint(q)) - 1
}

func readPairs(b []byte, lgK, n int) ([]int, error) {
	base := golombBits(1<<lgK, n)
	r := &bitReader{w: b}
	pairs := make([]int, 0, n)
	row, col := 0, 0
	for i := 0; i < n; i++ {
		dx, err := r.symbol(decUnary)
		if err != nil {
			return nil, err
		}
		hi := 0
		for r.bit() == 0 {
			if hi++; r.pos > 8*len(b) {
				return nil, fmt.Errorf("pair stream overrun")
			}
		}
		dy := hi<<base | r.bits(base)
		if dy > 0 {
			col = 0
		}
		row += dy
		if row >= 1<<lgK || col+dx > 63 {
			return nil, fmt.Errorf("pair (%d,%d) out of range", row, col+dx)
		}
		pairs = append(pairs, row<<6|(col+dx))
		col += dx + 1
	}
	return pairs, r.done(max(0, 10-base))
}

// parse reads an image written by a CPC sketch, checking every field.
func parse(b []byte) (*image, error) {
	if len(b) < 8 || b[1] != 1 || b[2] != 16 || b[3] < 4 || b[3] > 26 || b[5]&^0x1e != 0 || b[5]&2 == 0 {
		return nil, fmt.Errorf("header % x", b[:min(8, len(b))])
	}
	im := &image{lgK: int(b[3]), fiCol: int(b[4]), seedHash: binary.LittleEndian.Uint16(b[6:]), merged: b[5]&4 == 0}
	hasSV, hasW := b[5]&8 != 0, b[5]&16 != 0
	k := 1 << im.lgK
	im.kxp = float64(k)
	im.rows = make([]uint64, k)
	at := 8
	u32 := func() int {
		if at+4 > len(b) {
			at += 4
			return 0
		}
		at += 4
		return int(binary.LittleEndian.Uint32(b[at-4:]))
	}
	f64 := func() float64 {
		lo, hi := u32(), u32()
		return math.Float64frombits(uint64(lo) | uint64(hi)<<32)
	}
	var nsv, lsv, lw int
	if hasSV || hasW {
		im.n = u32()
		switch {
		case hasSV && hasW:
			nsv = u32()
			if !im.merged {
				im.kxp, im.hip = f64(), f64()
			}
			lsv, lw = u32(), u32()
		case hasSV:
			nsv, lsv = im.n, u32()
			if !im.merged {
				im.kxp, im.hip = f64(), f64()
			}
		default:
			lw = u32()
			if !im.merged {
				im.kxp, im.hip = f64(), f64()
			}
		}
	}
	if at > len(b) || int(b[0])*4 != max(at, 8) || len(b) != at+4*lw+4*lsv {
		return nil, fmt.Errorf("%d bytes, preamble %d of %d bytes, window %d words, values %d words", len(b), b[0], at, lw, lsv)
	}
	fl := flavor(im.lgK, im.n)
	if (fl == fEmpty) != (!hasSV && !hasW) || (fl >= fPinned) != hasW || hasSV != (nsv > 0) || (fl == fSparse || fl == fHybrid) && !hasSV {
		return nil, fmt.Errorf("%d coupons with flags %#x", im.n, b[5])
	}
	off := offset(im.lgK, im.n)
	if off > 56 {
		return nil, fmt.Errorf("offset %d", off)
	}
	if hasW {
		r := &bitReader{w: b[at : at+4*lw]}
		dec := decBytes[phase(im.lgK, im.n)]
		for i := range im.rows {
			v, err := r.symbol(dec)
			if err != nil {
				return nil, err
			}
			im.rows[i] = uint64(v)<<off | (1<<off - 1)
		}
		if err := r.done(11); err != nil {
			return nil, fmt.Errorf("window: %w", err)
		}
		at += 4 * lw
	}
	if hasSV {
		pairs, err := readPairs(b[at:], im.lgK, nsv)
		if err != nil {
			return nil, err
		}
		var inv [56]int
		if fl == fSliding {
			for i, v := range refPerms[phase(im.lgK, im.n)*56:][:56] {
				inv[v] = i
			}
		}
		for _, p := range pairs {
			r, c := p>>6, p&63
			if fl >= fPinned && c > 55 {
				return nil, fmt.Errorf("column code %d", c)
			}
			switch fl {
			case fPinned:
				c += 8
			case fSliding:
				c = (inv[c] + off + 8) & 63
			}
			im.rows[r] ^= 1 << c
		}
	}
	m := model{rows: im.rows}
	m.recount()
	if m.n != im.n {
		return nil, fmt.Errorf("%d coupons in the image, header says %d", m.n, im.n)
	}
	// columns before the first interesting one hold no surprises
	if im.fiCol > off {
		return nil, fmt.Errorf("first interesting column %d, offset %d", im.fiCol, off)
	}
	for i, w := range im.rows {
		if ^w&(1<<im.fiCol-1) != 0 {
			return nil, fmt.Errorf("row %d lacks a column before the first interesting one, %d", i, im.fiCol)
		}
	}
	return im, nil
}

type bitWriter struct {
	b   []byte
	pos int
}

func (w *bitWriter) put(v uint64, n int) {
	for i := 0; i < n; i++ {
		if w.pos>>3 >= len(w.b) {
			w.b = append(w.b, 0)
		}
		w.b[w.pos>>3] |= byte(v>>i&1) << (w.pos & 7)
		w.pos++
	}
}

func (w *bitWriter) finish(pad int) []byte {
	w.put(0, pad)
	for len(w.b)%4 != 0 {
		w.b = append(w.b, 0)
	}
	return w.b
}

// encode writes an image from the content alone.
func encode(im *image) []byte {
	m := model{rows: im.rows}
	m.recount()
	n := m.n
	fl, off, ph := flavor(im.lgK, n), offset(im.lgK, n), phase(im.lgK, n)
	var win, sv []byte
	var pairs []int
	for r, w := range im.rows {
		switch fl {
		case fPinned:
			w = w &^ 0xff >> 8
		case fSliding:
			x := w&^(0xff<<off) ^ (1<<off - 1)
			w = 0
			for c := 0; c < 64; c++ {
				if x>>c&1 == 1 {
					w |= 1 << refPerms[ph*56+(c+56-off)&63]
				}
			}
		}
		for c := 0; c < 64; c++ {
			if w>>c&1 == 1 {
				pairs = append(pairs, r<<6|c)
			}
		}
	}
	if fl >= fPinned {
		w := &bitWriter{}
		for _, x := range im.rows {
			e := refBytes[ph*256+int(x>>off&0xff)]
			w.put(uint64(e&0xfff), int(e>>12))
		}
		win = w.finish(11)
	}
	if len(pairs) > 0 {
		base := golombBits(1<<im.lgK, len(pairs))
		w := &bitWriter{}
		row, col := 0, 0
		for _, p := range pairs {
			r, c := p>>6, p&63
			if r != row {
				col = 0
			}
			e := refUnary[c-col]
			w.put(uint64(e&0xfff), int(e>>12))
			d := r - row
			for i := 0; i < d>>base; i++ {
				w.put(0, 1)
			}
			w.put(1, 1)
			w.put(uint64(d), base)
			row, col = r, c+1
		}
		sv = w.finish(max(0, 10-base))
	}
	flags := byte(2)
	var pre []byte
	u32 := func(v int) { pre = binary.LittleEndian.AppendUint32(pre, uint32(v)) }
	hip := func() {
		if !im.merged {
			pre = binary.LittleEndian.AppendUint64(pre, math.Float64bits(im.kxp))
			pre = binary.LittleEndian.AppendUint64(pre, math.Float64bits(im.hip))
		}
	}
	if !im.merged {
		flags |= 4
	}
	if n > 0 {
		u32(n)
		switch {
		case len(sv) > 0 && len(win) > 0:
			u32(len(pairs))
			hip()
			u32(len(sv) / 4)
			u32(len(win) / 4)
		case len(sv) > 0:
			u32(len(sv) / 4)
			hip()
		default:
			u32(len(win) / 4)
			hip()
		}
	}
	if len(sv) > 0 {
		flags |= 8
	}
	if len(win) > 0 {
		flags |= 16
	}
	b := []byte{byte((8 + len(pre)) / 4), 1, 16, byte(im.lgK), byte(im.fiCol), flags, 0, 0}
	binary.LittleEndian.PutUint16(b[6:], im.seedHash)
	b = append(b, pre...)
	b = append(b, win...)
	return append(b, sv...)
}

// ---------------------------------------------------------------- observation

func content(s *cpc.CpcSketch) (*image, []byte, error) {
	b, err := s.ToCompactSlice()
	if err != nil {
		return nil, nil, fmt.Errorf("ToCompactSlice: %w", err)
	}
	im, err := parse(b)
	return im, b, err
}

// matrixOf reads the coupons of a sketch through a fresh union.
func matrixOf(s *cpc.CpcSketch, seed uint64) ([]uint64, error) {
	u, err := cpc.NewCpcUnionSketch(s.GetLgK(), seed)
	if err != nil {
		return nil, err
	}
	if err := u.Update(s); err != nil {
		return nil, err
	}
	return u.GetBitMatrix()
}

func (m *model) matches(rows []uint64) error {
	if len(rows) != len(m.rows) {
		return fmt.Errorf("%d rows, want %d", len(rows), len(m.rows))
	}
	for i := range rows {
		if rows[i] != m.rows[i] {
			return fmt.Errorf("row %d holds columns %#x, want %#x", i, rows[i], m.rows[i])
		}
	}
	return nil
}

// verify compares a sketch with the model; hip tells that it saw the inputs in order.
func verify(s *cpc.CpcSketch, m *model, merged bool) (*image, []byte, error) {
	im, b, err := content(s)
	if err != nil {
		return nil, nil, err
	}
	if im.lgK != m.lgK || s.GetLgK() != m.lgK || im.seedHash != ref.SeedHash16(m.seed) || im.merged != merged {
		return nil, nil, fmt.Errorf("lgK %d, seed hash %#x, merged %v", im.lgK, im.seedHash, im.merged)
	}
	if err := m.matches(im.rows); err != nil {
		return nil, nil, fmt.Errorf("image: %w", err)
	}
	rows, err := matrixOf(s, m.seed)
	if err != nil {
		return nil, nil, err
	}
	if err := m.matches(rows); err != nil {
		return nil, nil, fmt.Errorf("union of the sketch: %w", err)
	}
	if !merged && m.n < 40<<m.lgK {
		if !near(im.kxp, m.kxp()) || !near(im.hip, m.hip) || im.hip != s.GetEstimate() {
			return nil, nil, fmt.Errorf("%d coupons: kxp %v hip %v estimate %v, want kxp %v estimate %v", m.n, im.kxp, im.hip, s.GetEstimate(), m.kxp(), m.hip)
		}
	}
	return im, b, nil
}

func answers(s interface {
	GetEstimate() float64
	GetLowerBound(int) float64
	GetUpperBound(int) float64
}) [7]float64 {
	a := [7]float64{s.GetEstimate()}
	for i := 1; i <= 3; i++ {
		a[2*i-1], a[2*i] = s.GetLowerBound(i), s.GetUpperBound(i)
	}
	return a
}

func drawLgK(t *rapid.T, big int) int {
	switch vk.Int(t, "lgkind", 0, 9) {
	case 0:
		return vk.Int(t, "lgK", 4, big)
	case 1, 2, 3, 4:
		return vk.Int(t, "lgK", 4, 6)
	default:
		return vk.Int(t, "lgK", 4, 10)
	}
}

func drawSeed(t *rapid.T) uint64 {
	s := vk.Pick(t, "seed", uint64(9001), 9001, 0, 1, 1<<63, math.MaxUint64, uint64(vk.Int(t, "otherseed", 0, 1<<40)))
	if ref.SeedHash16(s) == 0 {
		return 9001
	}
	return s
}

func mustSketch(t *rapid.T, lgK int, seed uint64) *cpc.CpcSketch {
	s, err := cpc.NewCpcSketch(lgK, seed)
	if err != nil {
		t.Fatalf("NewCpcSketch(%d,%d): %v", lgK, seed, err)
	}
	return s
}

// iconExact solves for the number of distinct inputs expected to give n coupons.
func iconExact(lgK int, n int) float64 {
	if n < 2 {
		return float64(n)
	}
	k := float64(int(1) << lgK)
	f := func(x float64) float64 {
		s := 0.0
		for j := 1; j <= 128; j++ {
			s -= math.Expm1(x * math.Log1p(-math.Ldexp(1, -j)/k))
		}
		return k * s
	}
	lo, hi := float64(n), float64(n)*2
	for f(hi) < float64(n) {
		lo, hi = hi, hi*2
	}
	for i := 0; i < 60 && hi-lo > 1e-9*hi; i++ {
		if mid := (lo + hi) / 2; f(mid) < float64(n) {
			lo = mid
		} else {
			hi = mid
		}
	}
	return (lo + hi) / 2
}
