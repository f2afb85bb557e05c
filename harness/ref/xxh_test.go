package ref

import "testing"

func TestXXH64(t *testing.T) {
	// published vectors
	for s, w := range map[string]uint64{"": 0xef46db3751d8e999, "a": 0xd24ec4f1a98c6e5b, "abc": 0x44bc2cf5ad770999, "Nobody inspects the spammish repetition": 0xfbcea83c8a378bf1} {
		if g := XXH64([]byte(s), 0); g != w {
			t.Errorf("%q: %x want %x", s, g, w)
		}
	}
}
