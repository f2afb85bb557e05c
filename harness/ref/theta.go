package ref

import (
	"encoding/binary"
	"errors"
	"math/bits"
	"slices"
)

const MaxTheta = uint64(1<<63 - 1)

// ThetaModel is the reference KMV model of a Theta update sketch.
type ThetaModel struct {
	LgK   uint8
	P     float32
	Seed  uint64
	Theta uint64
	Empty bool
	Set   map[uint64]struct{}
	// Rebuilds counts theta reductions.
	Rebuilds int
	// Dropped lists hashes removed by the last rebuild (for callers that track payloads)
	OnDrop func(h uint64)
}

func StartTheta(p float32) uint64 {
	if p < 1 {
		return uint64(float64(MaxTheta) * float64(p))
	}
	return MaxTheta
}

func NewThetaModel(lgK uint8, p float32, seed uint64) *ThetaModel {
	m := &ThetaModel{LgK: lgK, P: p, Seed: seed}
	m.Reset()
	return m
}

func (m *ThetaModel) Reset() {
	m.Theta = StartTheta(m.P)
	m.Empty = true
	m.Set = map[uint64]struct{}{}
}

// Offer presents a canonical hash; reports whether it is retained afterwards as a new key.
func (m *ThetaModel) Offer(h uint64) bool {
	m.Empty = false
	if h >= m.Theta || h == 0 {
		return false
	}
	if _, ok := m.Set[h]; ok {
		return false
	}
	m.Set[h] = struct{}{}
	if len(m.Set) > (15 << (m.LgK + 1) / 16) {
		m.cut()
	}
	return true
}

func (m *ThetaModel) cut() {
	s := m.Sorted()
	k := 1 << m.LgK
	m.Theta = s[k]
	for _, h := range s[k:] {
		delete(m.Set, h)
		if m.OnDrop != nil {
			m.OnDrop(h)
		}
	}
	m.Rebuilds++
}

func (m *ThetaModel) Trim() {
	if len(m.Set) > 1<<m.LgK {
		m.cut()
	}
}

func (m *ThetaModel) Sorted() []uint64 {
	s := make([]uint64, 0, len(m.Set))
	for h := range m.Set {
		s = append(s, h)
	}
	slices.Sort(s)
	return s
}

// Theta64 is what the sketch reports: an empty sketch reports 1.0.
func (m *ThetaModel) Theta64() uint64 {
	if m.Empty {
		return MaxTheta
	}
	return m.Theta
}

// KMV is a (theta, sorted hashes) pair: the abstract value of any compact sketch.
type KMV struct {
	Theta   uint64
	H       []uint64 // ascending
	Empty   bool
	SeedH   uint16
	Ordered bool     // flag as stored
	Raw     []uint64 // stored order
}

// EncodeThetaV3 writes the uncompressed compact layout.
func EncodeThetaV3(k KMV, entries []uint64, ordered bool) []byte {
	est := k.Theta < MaxTheta && !k.Empty
	pre := 2
	if est {
		pre = 3
	} else if k.Empty || len(entries) == 1 {
		pre = 1
	}
	b := make([]byte, pre*8+8*len(entries))
	b[0], b[1], b[2] = byte(pre), 3, 3
	b[5] = 1<<3 | 1<<1
	if k.Empty {
		b[5] |= 1 << 2
	}
	if ordered {
		b[5] |= 1 << 4
	}
	binary.LittleEndian.PutUint16(b[6:], k.SeedH)
	o := 8
	if pre > 1 {
		binary.LittleEndian.PutUint32(b[8:], uint32(len(entries)))
		o = 16
	}
	if est {
		binary.LittleEndian.PutUint64(b[16:], k.Theta)
		o = 24
	}
	for _, e := range entries {
		binary.LittleEndian.PutUint64(b[o:], e)
		o += 8
	}
	return b
}

// EncodeThetaV4 writes the compressed layout (ordered, at least one entry; MSB-first bit packing).
func EncodeThetaV4(k KMV, entries []uint64, extraBits int, extraCountBytes int) []byte {
	est := k.Theta < MaxTheta
	pre := 1
	if est {
		pre = 2
	}
	var ored, prev uint64
	for _, e := range entries {
		ored |= e - prev
		prev = e
	}
	eb := 64 - bits.LeadingZeros64(ored) + extraBits
	if eb > 63 {
		eb = 63
	}
	nb := (32 - bits.LeadingZeros32(uint32(len(entries))) + 7) / 8
	if nb == 0 {
		nb = 1
	}
	nb += extraCountBytes
	if nb > 4 {
		nb = 4
	}
	b := []byte{byte(pre), 4, 3, byte(eb), byte(nb), 1<<3 | 1<<1 | 1<<4, 0, 0}
	binary.LittleEndian.PutUint16(b[6:], k.SeedH)
	if est {
		b = binary.LittleEndian.AppendUint64(b, k.Theta)
	}
	for i := 0; i < nb; i++ {
		b = append(b, byte(len(entries)>>(8*i)))
	}
	var acc byte
	nbits := 0
	prev = 0
	for _, e := range entries {
		d := e - prev
		prev = e
		for j := eb - 1; j >= 0; j-- {
			acc = acc<<1 | byte(d>>uint(j)&1)
			nbits++
			if nbits == 8 {
				b = append(b, acc)
				acc, nbits = 0, 0
			}
		}
	}
	if nbits > 0 {
		b = append(b, acc<<(8-nbits))
	}
	return b
}

var errShort = errors.New("short image")

// DecodeTheta is a reference decoder for serial versions 1..4.
func DecodeTheta(b []byte) (KMV, error) {
	var k KMV
	k.Theta = MaxTheta
	if len(b) < 8 {
		return k, errShort
	}
	pre, ver, flags := int(b[0]), b[1], b[5]
	k.SeedH = binary.LittleEndian.Uint16(b[6:])
	rd := func(o, n int) error {
		if len(b) < o+8*n {
			return errShort
		}
		for i := 0; i < n; i++ {
			k.Raw = append(k.Raw, binary.LittleEndian.Uint64(b[o+8*i:]))
		}
		return nil
	}
	fin := func() (KMV, error) {
		k.H = slices.Clone(k.Raw)
		slices.Sort(k.H)
		return k, nil
	}
	switch ver {
	case 1:
		n := int(binary.LittleEndian.Uint32(b[8:]))
		k.Theta = binary.LittleEndian.Uint64(b[16:])
		k.Empty = n == 0 && k.Theta == MaxTheta
		k.Ordered = true
		if err := rd(24, n); err != nil {
			return k, err
		}
		return fin()
	case 2:
		k.Ordered = true
		n := 0
		if pre > 1 {
			n = int(binary.LittleEndian.Uint32(b[8:]))
		}
		if pre > 2 {
			k.Theta = binary.LittleEndian.Uint64(b[16:])
		}
		k.Empty = n == 0 && k.Theta == MaxTheta
		if err := rd(8*pre, n); err != nil {
			return k, err
		}
		return fin()
	case 3:
		if flags&4 != 0 {
			k.Empty = true
			k.Ordered = true
			return k, nil
		}
		k.Ordered = flags&16 != 0
		if pre == 1 {
			k.Ordered = true
			if err := rd(8, 1); err != nil {
				return k, err
			}
			return fin()
		}
		n := int(binary.LittleEndian.Uint32(b[8:]))
		if pre > 2 {
			k.Theta = binary.LittleEndian.Uint64(b[16:])
		}
		if err := rd(8*pre, n); err != nil {
			return k, err
		}
		return fin()
	case 4:
		o := 8
		if pre > 1 {
			k.Theta = binary.LittleEndian.Uint64(b[8:])
			o = 16
		}
		eb, nb := int(b[3]), int(b[4])
		n := 0
		for i := 0; i < nb; i++ {
			n |= int(b[o+i]) << (8 * i)
		}
		o += nb
		pos := 0
		var prev uint64
		for i := 0; i < n; i++ {
			var d uint64
			for j := 0; j < eb; j++ {
				if o+pos/8 >= len(b) {
					return k, errShort
				}
				d = d<<1 | uint64(b[o+pos/8]>>(7-pos%8)&1)
				pos++
			}
			prev += d
			k.Raw = append(k.Raw, prev)
		}
		if o+(pos+7)/8 != len(b) {
			return k, errors.New("trailing bytes")
		}
		k.Ordered = true
		return fin()
	}
	return k, errors.New("bad version")
}
