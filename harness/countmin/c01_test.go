package countmin_test

import (
	"bytes"
	"fmt"
	"testing"

	"pgregory.net/rapid"

	"verif/vk"
)

func c01(t *rapid.T, c *vk.Case) { c01run(t, c, newCm) }

func c01wide(t *rapid.T, c *vk.Case) {
	c01run(t, c, func(t *rapid.T) *cm {
		return newCmOf(t, vk.Int(t, "h", 1, 4), vk.Pick(t, "b", 32768, 65535, 65536, 65537, 100003))
	})
}

func c01run(t *rapid.T, c *vk.Case, newCm func(t *rapid.T) *cm) {
	x := newCm(t)
	pool := []*cm{x, x.twin(), newCm(t)}
	hist := ""
	for i, p := range pool {
		hist += fmt.Sprintf("#%d(h=%d b=%d seed=%d) ", i, p.h, p.b, p.seed)
	}
	pr := vk.NewPRNG(uint64(rapid.Uint32().Draw(t, "probe")))
	merged, rejected := 0, 0
	for st := vk.Int(t, "steps", 1, 8); st > 0; st-- {
		i := vk.Int(t, "i", 0, 2)
		p := pool[i]
		switch vk.Int(t, "op", 0, 5) {
		case 0, 1, 2:
			d, err := p.stream(t)
			hist += fmt.Sprintf(" #%d+%s", i, d)
			if err != nil {
				t.Fatalf("%s: %v", hist, err)
			}
		case 3, 4:
			j := vk.Int(t, "j", 0, 2)
			o := pool[j]
			hist += fmt.Sprintf(" #%d<-#%d", i, j)
			pb, ob := p.bytes(), o.bytes()
			ok := i != j && p.h == o.h && p.b == o.b && p.seed == o.seed
			err := p.s.Merge(o.s)
			if (err == nil) != ok {
				t.Fatalf("%s: merge returned %v", hist, err)
			}
			if i != j && !bytes.Equal(o.bytes(), ob) {
				t.Fatalf("%s: merge changed its source", hist)
			}
			if !ok {
				rejected++
				if !bytes.Equal(p.bytes(), pb) {
					t.Fatalf("%s: rejected merge changed the sketch", hist)
				}
				continue
			}
			merged++
			for r := range p.tab {
				for k := range p.tab[r] {
					p.tab[r][k] += o.tab[r][k]
				}
			}
			p.total += o.total
			p.negative = p.negative || o.negative
			for it, w := range o.truth {
				p.truth[it] += w
			}
		case 5:
			hist += fmt.Sprintf(" trip#%d", i)
			d, err := p.s.Deserialize(p.bytes(), p.seed)
			if err != nil {
				t.Fatalf("%s: %v", hist, err)
			}
			p.s = d
		}
		if err := p.checkAll(pr); err != nil {
			t.Fatalf("%s: #%d: %v", hist, i, err)
		}
	}
	coll := false
	for _, p := range pool {
		for it, w := range p.truth {
			if p.want([]byte(it)) != w {
				coll = true
			}
		}
	}
	if coll || merged > 0 {
		c.NT(hist)
	}
	if coll {
		c.Class("collisions visible in an estimate")
	}
	if merged > 0 {
		c.Class("merged")
	}
	if rejected > 0 {
		c.Class("merge rejected")
	}
	c.Sample("%s", hist)
}

func TestC01(t *testing.T) {
	vk.Property(t, "C01", "a case is non-trivial if some estimate differs from the true weight (colliding rows) or compatible sketches were merged",
		vk.Sub{Name: "table", Quick: 16000, Thorough: 400000, Fn: c01},
		vk.Sub{Name: "wide", Quick: 160, Thorough: 2000, Fn: c01wide})
}
