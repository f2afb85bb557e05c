// Package ref holds independent reference implementations used as oracles.
package ref

import (
	"encoding/binary"
	"math"
	"math/bits"
)

const (
	mc1 = 0x87c37b91114253d5
	mc2 = 0x4cf5ad432745937f
)

func fmix(k uint64) uint64 {
	k ^= k >> 33
	k *= 0xff51afd7ed558ccd
	k ^= k >> 33
	k *= 0xc4ceb9fe1a85ec53
	k ^= k >> 33
	return k
}

// Murmur128 is MurmurHash3_x64_128 (canonical algorithm) with a 64-bit seed in both lanes.
func Murmur128(data []byte, seed uint64) (uint64, uint64) { return murmurN(data, len(data), seed) }

// MurmurInts is the library's hash of a slice of 32-bit integers given as their
// little-endian bytes: a last odd value counts sign-extended.
func MurmurInts(b []byte, seed uint64) (uint64, uint64) {
	d := append([]byte(nil), b...)
	if len(b)%8 == 4 && b[len(b)-1] >= 0x80 {
		d = append(d, 0xff, 0xff, 0xff, 0xff)
	}
	return murmurN(d, len(b), seed)
}

func murmurN(data []byte, n int, seed uint64) (uint64, uint64) {
	h1, h2 := seed, seed
	i := 0
	for ; i+16 <= n; i += 16 {
		k1 := binary.LittleEndian.Uint64(data[i:])
		k2 := binary.LittleEndian.Uint64(data[i+8:])
		k1 *= mc1
		k1 = bits.RotateLeft64(k1, 31)
		k1 *= mc2
		h1 ^= k1
		h1 = bits.RotateLeft64(h1, 27)
		h1 += h2
		h1 = h1*5 + 0x52dce729
		k2 *= mc2
		k2 = bits.RotateLeft64(k2, 33)
		k2 *= mc1
		h2 ^= k2
		h2 = bits.RotateLeft64(h2, 31)
		h2 += h1
		h2 = h2*5 + 0x38495ab5
	}
	var tail [16]byte
	copy(tail[:], data[i:])
	if n-i > 8 {
		k2 := binary.LittleEndian.Uint64(tail[8:])
		k2 *= mc2
		k2 = bits.RotateLeft64(k2, 33)
		k2 *= mc1
		h2 ^= k2
	}
	if n-i > 0 {
		k1 := binary.LittleEndian.Uint64(tail[:8])
		k1 *= mc1
		k1 = bits.RotateLeft64(k1, 31)
		k1 *= mc2
		h1 ^= k1
	}
	h1 ^= uint64(n)
	h2 ^= uint64(n)
	h1 += h2
	h2 += h1
	h1 = fmix(h1)
	h2 = fmix(h2)
	h1 += h2
	h2 += h1
	return h1, h2
}

func inv(a uint64) uint64 { // multiplicative inverse of odd a mod 2^64
	x := a
	for i := 0; i < 6; i++ {
		x *= 2 - a*x
	}
	return x
}

var (
	invF1 = inv(0xff51afd7ed558ccd)
	invF2 = inv(0xc4ceb9fe1a85ec53)
	invC1 = inv(mc1)
	invC2 = inv(mc2)
	inv5  = inv(5)
)

func ifmix(k uint64) uint64 {
	k ^= k >> 33
	k *= invF2
	k ^= k >> 33
	k *= invF1
	k ^= k >> 33
	return k
}

// Preimage16 returns the 16-byte input whose Murmur128 with seed is (h1,h2).
func Preimage16(h1, h2, seed uint64) []byte {
	h2 -= h1
	h1 -= h2
	h1, h2 = ifmix(h1), ifmix(h2)
	h2 -= h1
	h1 -= h2
	h1 ^= 16
	h2 ^= 16
	// undo the body
	t2 := (h2 - 0x38495ab5) * inv5
	t2 -= h1
	t2 = bits.RotateLeft64(t2, -31)
	k2 := t2 ^ seed
	k2 *= invC1
	k2 = bits.RotateLeft64(k2, -33)
	k2 *= invC2
	t1 := (h1 - 0x52dce729) * inv5
	t1 -= seed
	t1 = bits.RotateLeft64(t1, -27)
	k1 := t1 ^ seed
	k1 *= invC2
	k1 = bits.RotateLeft64(k1, -31)
	k1 *= invC1
	b := make([]byte, 16)
	binary.LittleEndian.PutUint64(b, k1)
	binary.LittleEndian.PutUint64(b[8:], k2)
	return b
}

func LE64(v uint64) []byte {
	b := make([]byte, 8)
	binary.LittleEndian.PutUint64(b, v)
	return b
}

// CanonDouble is the canonical bit pattern of a double (one zero, one NaN).
func CanonDouble(f float64) uint64 {
	if f == 0 {
		return 0
	}
	if f != f {
		return 0x7ff8000000000000
	}
	return math.Float64bits(f)
}

// SeedHash16 is the DataSketches 16-bit seed hash.
func SeedHash16(seed uint64) uint16 {
	h, _ := Murmur128(LE64(seed), 0)
	return uint16(h)
}

// MurmurInt32 is the library's hash of a single 32-bit signed integer (4-byte key, value sign-extended).
func MurmurInt32(v int32, seed uint64) (uint64, uint64) {
	return murmurTail(uint64(int64(v)), 0, 4, seed)
}

func murmurTail(k1, k2, n, seed uint64) (uint64, uint64) {
	h1, h2 := seed, seed
	k2 *= mc2
	k2 = bits.RotateLeft64(k2, 33)
	k2 *= mc1
	h2 ^= k2
	k1 *= mc1
	k1 = bits.RotateLeft64(k1, 31)
	k1 *= mc2
	h1 ^= k1
	h1 ^= n
	h2 ^= n
	h1 += h2
	h2 += h1
	h1, h2 = fmix(h1), fmix(h2)
	h1 += h2
	h2 += h1
	return h1, h2
}

// MurmurChars is the library's hash of a string: every byte stands for one 16-bit character; blocks of
// eight characters are packed as two 4-byte lanes.
func MurmurChars(s string, seed uint64) (uint64, uint64) {
	h1, h2 := seed, seed
	lane := func(p string) (k uint64) {
		for i := len(p) - 1; i >= 0; i-- {
			k = k<<8 | uint64(p[i])
		}
		return
	}
	n := uint64(len(s)) * 2
	for len(s) >= 8 {
		k1, k2 := lane(s[:4]), lane(s[4:8])
		k1 *= mc1
		k1 = bits.RotateLeft64(k1, 31)
		k1 *= mc2
		h1 ^= k1
		h1 = bits.RotateLeft64(h1, 27)
		h1 += h2
		h1 = h1*5 + 0x52dce729
		k2 *= mc2
		k2 = bits.RotateLeft64(k2, 33)
		k2 *= mc1
		h2 ^= k2
		h2 = bits.RotateLeft64(h2, 31)
		h2 += h1
		h2 = h2*5 + 0x38495ab5
		s = s[8:]
	}
	var k1, k2 uint64
	if len(s) > 4 {
		k1, k2 = lane(s[:4]), lane(s[4:])
	} else {
		k1 = lane(s)
	}
	k2 *= mc2
	k2 = bits.RotateLeft64(k2, 33)
	k2 *= mc1
	h2 ^= k2
	k1 *= mc1
	k1 = bits.RotateLeft64(k1, 31)
	k1 *= mc2
	h1 ^= k1
	h1 ^= n
	h2 ^= n
	h1 += h2
	h2 += h1
	h1, h2 = fmix(h1), fmix(h2)
	h1 += h2
	h2 += h1
	return h1, h2
}
