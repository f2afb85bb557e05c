package tgen

import (
	"fmt"
	"math"

	"pgregory.net/rapid"

	"verif/ref"
	"verif/vk"
)

// Key is a typed update key with the canonical hash it must produce.
type Key struct {
	Desc string
	V    any // int64,uint64,uint32,int32,int16,uint16,int8,uint8,float64,float32,string,[]byte
	Hash uint64
	OK   bool // false: the API rejects it
}

// KeyUpdater is the typed update interface of keyed sketches.
type KeyUpdater[V any] interface {
	UpdateInt64(int64, V) error
	UpdateUint64(uint64, V) error
	UpdateUint32(uint32, V) error
	UpdateInt32(int32, V) error
	UpdateInt16(int16, V) error
	UpdateUint16(uint16, V) error
	UpdateInt8(int8, V) error
	UpdateUint8(uint8, V) error
	UpdateFloat64(float64, V) error
	UpdateFloat32(float32, V) error
	UpdateString(string, V) error
	UpdateBytes([]byte, V) error
}

func ApplyKey[V any](k Key, s KeyUpdater[V], v V) error {
	switch x := k.V.(type) {
	case int64:
		return s.UpdateInt64(x, v)
	case uint64:
		return s.UpdateUint64(x, v)
	case uint32:
		return s.UpdateUint32(x, v)
	case int32:
		return s.UpdateInt32(x, v)
	case int16:
		return s.UpdateInt16(x, v)
	case uint16:
		return s.UpdateUint16(x, v)
	case int8:
		return s.UpdateInt8(x, v)
	case uint8:
		return s.UpdateUint8(x, v)
	case float64:
		return s.UpdateFloat64(x, v)
	case float32:
		return s.UpdateFloat32(x, v)
	case string:
		return s.UpdateString(x, v)
	case []byte:
		return s.UpdateBytes(x, v)
	}
	panic("unknown key type")
}

// I64Hash is the canonical hash of a 64-bit integer key.
func I64Hash(v int64, seed uint64) uint64 {
	a, _ := ref.Murmur128(ref.LE64(uint64(v)), seed)
	return a >> 1
}

// DrawKey draws a key, often from a small range so that repeats occur across types.
func DrawKey(t *rapid.T, seed uint64) Key {
	small := vk.Int(t, "ksmall", 0, 1) == 1
	n := int64(vk.Int(t, "kn", -3, 12))
	i := func() int64 {
		if small {
			return n
		}
		return rapid.Int64().Draw(t, "ki")
	}
	mi := func(v int32) uint64 { a, _ := ref.MurmurInt32(v, seed); return a >> 1 }
	k := Key{OK: true}
	switch vk.Int(t, "ktype", 0, 11) {
	case 0:
		v := i()
		k.V, k.Hash = v, I64Hash(v, seed)
	case 1:
		v := uint64(i())
		k.V, k.Hash = v, I64Hash(int64(v), seed)
	case 2:
		v := uint32(i())
		k.V, k.Hash = v, I64Hash(int64(v), seed)
	case 3:
		v := int32(i())
		k.V, k.Hash = v, mi(v)
	case 4:
		v := int16(i())
		k.V, k.Hash = v, mi(int32(v))
	case 5:
		v := uint16(i())
		k.V, k.Hash = v, mi(int32(v))
	case 6:
		v := int8(i())
		k.V, k.Hash = v, mi(int32(v))
	case 7:
		v := uint8(i())
		k.V, k.Hash = v, mi(int32(v))
	case 8:
		v := float64(n)
		if !small {
			v = rapid.OneOf(rapid.Float64(), rapid.SampledFrom([]float64{0, math.Copysign(0, -1), math.NaN(), math.Float64frombits(0xfff8000000000001), math.Float64frombits(0xfff8000000000000), math.Inf(1), math.Inf(-1), 5e-324})).Draw(t, "kf")
		}
		k.V, k.Hash = v, I64Hash(int64(ref.CanonDouble(v)), seed)
	case 9:
		v := float32(n)
		if !small {
			v = rapid.OneOf(rapid.Float32(), rapid.SampledFrom([]float32{0, float32(math.Copysign(0, -1)), float32(math.NaN()), math.Float32frombits(0xffc00000), math.Float32frombits(0x7f800001), float32(math.Inf(1))})).Draw(t, "kf32")
		}
		k.V, k.Hash = v, I64Hash(int64(ref.CanonDouble(float64(v))), seed)
	case 10:
		v := fmt.Sprint("k", n)
		if !small {
			l := vk.Int(t, "klen", 0, 40)
			v = string(rapid.SliceOfN(rapid.Byte(), l, l).Draw(t, "kstr"))
		}
		a, _ := ref.MurmurChars(v, seed)
		k.V, k.Hash, k.OK = v, a>>1, v != ""
	default:
		l := vk.Int(t, "klen", 0, 40)
		v := rapid.SliceOfN(rapid.Byte(), l, l).Draw(t, "kbytes")
		if small {
			v = ref.LE64(uint64(n))
		}
		a, _ := ref.Murmur128(v, seed)
		k.V, k.Hash = v, a>>1
	}
	k.Desc = fmt.Sprintf("%T %v", k.V, k.V)
	return k
}
