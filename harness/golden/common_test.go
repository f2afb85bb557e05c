package golden_test

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"sync"

	"pgregory.net/rapid"

	"verif/vk"
)

// img is one image written by the C++, Java or an earlier Go implementation.
type img struct {
	lang, name string
	n          int // the length of the documented stream, from the name
	m          []string
	data       []byte
}

func (f *img) String() string { return f.lang + "/" + f.name }

var langs = []string{"cpp", "java", "go"}

// images lists the files whose name without language suffix matches; the first group is n.
func images(t *rapid.T, pattern string) []*img {
	imgMu.Lock()
	defer imgMu.Unlock()
	if r, ok := imgCache[pattern]; ok {
		return r
	}
	re := regexp.MustCompile("^" + pattern + "$")
	var r []*img
	for _, l := range langs {
		for _, f := range vk.Golden(l, "") {
			b := strings.TrimSuffix(filepath.Base(f), "_"+l+".sk")
			m := re.FindStringSubmatch(b)
			if m == nil {
				continue
			}
			d, err := os.ReadFile(f)
			if err != nil {
				t.Fatalf("%v", err)
			}
			x := &img{lang: l, name: b, data: d, m: m}
			if len(m) > 1 {
				x.n, _ = strconv.Atoi(m[1])
			}
			r = append(r, x)
		}
	}
	if len(r) == 0 {
		t.Fatalf("no golden image matches %s", pattern)
	}
	imgCache[pattern] = r
	return r
}

var imgMu sync.Mutex
var imgCache = map[string][]*img{}

// pickImg draws one of the matching images.
func pickImg(t *rapid.T, c *vk.Case, pattern string) *img {
	all := images(t, pattern)
	f := all[vk.Int(t, "image", 0, len(all)-1)]
	c.Class(f.lang)
	return f
}

// memo builds a value once per key.
type memo[V any] struct {
	mu sync.Mutex
	m  map[string]V
}

func (c *memo[V]) get(key string, f func() V) V {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.m == nil {
		c.m = map[string]V{}
	}
	if v, ok := c.m[key]; ok {
		return v
	}
	v := f()
	c.m[key] = v
	return v
}

func must(t *rapid.T, f *img, err error) {
	t.Helper()
	if err != nil {
		t.Fatalf("%s: %v", f, err)
	}
}

func trim(s string) string {
	if len(s) > 700 {
		return s[:700] + "..."
	}
	return s
}

// same fails when two fingerprints differ.
func same(t *rapid.T, f *img, what, got, want string) {
	if got != want {
		i := 0
		for i < len(got) && i < len(want) && got[i] == want[i] {
			i++
		}
		i = max(0, i-60)
		t.Fatalf("%s: %s differs from the natively built sketch\n got ...%q\nwant ...%q", f, what, trim(got[i:]), trim(want[i:]))
	}
}

// span is a generated range of integers.
type span struct{ lo, n int }

func drawSpan(t *rapid.T, label string, n, maxLen int) span {
	s := span{n: vk.Size(t, label+".len", 0, maxLen)}
	switch vk.Int(t, label+".where", 0, 3) {
	case 0: // overlapping the end of the stream
		s.lo = n - s.n/2
	case 1: // disjoint
		s.lo = n + vk.Int(t, label+".gap", 0, 1000)
	case 2: // inside
		s.lo = vk.Int(t, label+".lo", 0, max(n, 1))
	default:
		s.lo = -vk.Int(t, label+".neg", 0, 100000)
	}
	return s
}

func (s span) each(f func(i int)) {
	for i := 0; i < s.n; i++ {
		f(s.lo + i)
	}
}

func (s span) String() string { return fmt.Sprintf("[%d,+%d)", s.lo, s.n) }
