package ref

import (
	"encoding/binary"
	"math/bits"
)

// XXH64 is an independent implementation of xxHash64.
func XXH64(b []byte, seed uint64) uint64 {
	const (
		p1 = uint64(11400714785074694791)
		p2 = uint64(14029467366897019727)
		p3 = uint64(1609587929392839161)
		p4 = uint64(9650029242287828579)
		p5 = uint64(2870177450012600261)
	)
	round := func(acc, in uint64) uint64 { return bits.RotateLeft64(acc+in*p2, 31) * p1 }
	n := uint64(len(b))
	var h uint64
	if len(b) >= 32 {
		v := [4]uint64{seed, seed, seed, seed}
		v[0] += p1
		v[0] += p2
		v[1] += p2
		v[3] -= p1
		for len(b) >= 32 {
			for i := range v {
				v[i] = round(v[i], binary.LittleEndian.Uint64(b[8*i:]))
			}
			b = b[32:]
		}
		h = bits.RotateLeft64(v[0], 1) + bits.RotateLeft64(v[1], 7) + bits.RotateLeft64(v[2], 12) + bits.RotateLeft64(v[3], 18)
		for i := range v {
			h = (h^round(0, v[i]))*p1 + p4
		}
	} else {
		h = seed + p5
	}
	h += n
	for ; len(b) >= 8; b = b[8:] {
		h = bits.RotateLeft64(h^round(0, binary.LittleEndian.Uint64(b)), 27)*p1 + p4
	}
	if len(b) >= 4 {
		h = bits.RotateLeft64(h^uint64(binary.LittleEndian.Uint32(b))*p1, 23)*p2 + p3
		b = b[4:]
	}
	for _, c := range b {
		h = bits.RotateLeft64(h^uint64(c)*p5, 11) * p1
	}
	h = (h ^ h>>33) * p2
	h = (h ^ h>>29) * p3
	return h ^ h>>32
}
