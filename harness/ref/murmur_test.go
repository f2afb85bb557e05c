package ref

import (
	"bytes"
	"testing"

	"github.com/twmb/murmur3"
)

func TestMurmur(t *testing.T) {
	b := []byte("the quick brown fox jumps over the lazy dog and more")
	for i := range b {
		for _, s := range []uint64{0, 9001, 1 << 60} {
			a1, a2 := Murmur128(b[:i], s)
			e1, e2 := murmur3.SeedSum128(s, s, b[:i])
			if a1 != e1 || a2 != e2 {
				t.Fatal(i, s)
			}
		}
	}
	for _, s := range []uint64{0, 9001, 1 << 60} {
		p := Preimage16(12345, 67890, s)
		h1, h2 := Murmur128(p, s)
		if h1 != 12345 || h2 != 67890 {
			t.Fatal("inv")
		}
		q := Preimage16(h1, h2, s)
		if !bytes.Equal(p, q) {
			t.Fatal("inv2")
		}
	}
}
