package cross_test

import (
	"errors"
	"fmt"
	"math/rand"
	"strings"

	"pgregory.net/rapid"

	"verif/vk"
)

// object is a live sketch, union or filter behind a uniform face.
type object struct {
	name    string
	step    func(p *vk.PRNG) // one burst of valid mutations; nil for immutable objects
	show    func() string    // every answer it gives
	loose   func() string    // the answers reads may not influence; nil: all of them
	reads   []op             // calls that change nothing
	derive  []deriv          // calls that produce an independent object
	absorb  []deriv          // calls that take another object as argument and return it
	buffers []buf            // calls with a caller-owned buffer, or returning one
	reset   func()           // nil if there is none
	fails   []fail           // calls that must be refused
	random  bool             // uses randomness this harness cannot control
}

type op struct {
	name string
	f    func(p *vk.PRNG)
}

type deriv struct {
	name string
	f    func(p *vk.PRNG) *object
}

// buf runs a call and returns a function that overwrites the buffer, and the object to watch (nil: the receiver).
type buf struct {
	name string
	f    func(p *vk.PRNG) (*object, func())
}

type fail struct {
	name string
	f    func(p *vk.PRNG) error
}

func (o *object) twin() string {
	if o.loose != nil {
		return o.loose()
	}
	return o.show()
}

// family draws a configuration and returns a constructor of fresh objects with it.
type family struct {
	name string
	mk   func(t *rapid.T, p *vk.PRNG) (fresh func() *object, cfg string)
}

// errSkip: the call does not apply to the present state; it must then not have been made.
var errSkip = errors.New("skip")

func seedLib(s uint64) { rand.Seed(int64(s >> 1)) } //nolint

func pick[E any](p *vk.PRNG, vs ...E) E { return vs[p.Intn(len(vs))] }

// burst is the number of updates in one step.
func burst(p *vk.PRNG, max int) int {
	switch p.Intn(5) {
	case 0:
		return 1
	case 1:
		return 1 + p.Intn(8)
	case 2:
		return 1 + p.Intn(60)
	}
	return 1 + p.Intn(max)
}

func ok(t *rapid.T, err error) {
	t.Helper()
	if err != nil {
		t.Fatalf("unexpected error: %v", err)
	}
}

func flip(b []byte) func() {
	return func() {
		for i := range b {
			b[i] ^= 0xa5
		}
	}
}

func clip(s string, i int) string {
	lo := max(0, i-80)
	hi := min(len(s), i+120)
	return fmt.Sprintf("...%q...", s[lo:hi])
}

func differ(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	return fmt.Sprintf("at offset %d\n was %s\n now %s", i, clip(a, min(i, len(a))), clip(b, min(i, len(b))))
}

func must(t *rapid.T, hist []string, what, before, after string) {
	if before != after {
		t.Fatalf("%s %s\nhistory: %s", what, differ(before, after), strings.Join(hist, "; "))
	}
}

// refused fails when an argument changed during a refused call, and passes the error on.
func refused(arg *object, f func() error) error {
	before := arg.show()
	err := f()
	if after := arg.show(); after != before {
		panic(fmt.Sprintf("a refused call changed its argument %s %s", arg.name, differ(before, after)))
	}
	return err
}

func drawFamily(t *rapid.T, c *vk.Case) (func() *object, string) {
	f := families[vk.Int(t, "family", 0, len(families)-1)]
	fresh, cfg := f.mk(t, vk.NewPRNG(rapid.Uint64().Draw(t, "cfg")))
	c.Class(f.name)
	return fresh, f.name + " " + cfg
}

func u64(t *rapid.T, label string) uint64 { return rapid.Uint64().Draw(t, label) }

// ---------------------------------------------------------------- Q01

// qReads: with and without reads in between.
func qReads(t *rapid.T, c *vk.Case) {
	fresh, name := drawFamily(t, c)
	a, b := fresh(), fresh()
	quiet := vk.Chance(t, "quiet", 1, 2)
	hist := []string{name}
	nr := 0
	look := func(i int) {
		for j, k := 0, vk.Int(t, fmt.Sprintf("reads%d", i), 0, 3); j < k; j++ {
			l := fmt.Sprintf("r%d.%d", i, j)
			r := b.reads[vk.Int(t, l, 0, len(b.reads)-1)]
			s := u64(t, l+".s")
			hist = append(hist, "read "+r.name)
			if quiet {
				r.f(vk.NewPRNG(s))
			} else {
				s1 := b.show()
				r.f(vk.NewPRNG(s))
				must(t, hist, "the last call changed the answers", s1, b.show())
			}
			nr++
		}
	}
	look(0)
	steps := 0
	if a.step != nil {
		for i, n := 1, vk.Int(t, "steps", 1, 8); i <= n; i++ {
			s := u64(t, fmt.Sprintf("s%d", i))
			hist = append(hist, fmt.Sprintf("step %d", s))
			seedLib(s)
			a.step(vk.NewPRNG(s))
			seedLib(s)
			b.step(vk.NewPRNG(s))
			steps++
			look(i)
		}
	}
	must(t, hist, "with the reads the object answers differently from one without", a.twin(), b.twin())
	if nr > 0 && (steps > 0 || a.step == nil) {
		c.NT(strings.Join(hist, ";"), quiet)
	}
	if c.WantSample() {
		c.Sample("%s", strings.Join(hist, "; "))
	}
}

// qDerived: objects derived from one another never influence each other.
func qDerived(t *rapid.T, c *vk.Case) {
	fresh, name := drawFamily(t, c)
	type live struct {
		*object
		id   int
		seen string
	}
	hist := []string{name}
	var all []*live
	add := func(o *object, how string) {
		all = append(all, &live{o, len(all), o.show()})
		hist = append(hist, fmt.Sprintf("#%d=%s", len(all)-1, how))
	}
	check := func(except ...int) {
	next:
		for _, x := range all {
			for _, e := range except {
				if x.id == e {
					x.seen = x.show()
					continue next
				}
			}
			s := x.show()
			must(t, hist, fmt.Sprintf("object #%d (%s) changed", x.id, x.name), x.seen, s)
		}
	}
	add(fresh(), "new")
	if all[0].step != nil {
		for i, n := 0, vk.Int(t, "steps", 0, 4); i < n; i++ {
			s := u64(t, fmt.Sprintf("s%d", i))
			seedLib(s)
			all[0].step(vk.NewPRNG(s))
			hist = append(hist, fmt.Sprintf("step #0 %d", s))
		}
		check(0)
	}
	made := 0
	for i, n := 0, vk.Int(t, "ops", 1, 10); i < n; i++ {
		l := fmt.Sprintf("o%d", i)
		x := all[vk.Int(t, l+".obj", 0, len(all)-1)]
		s := u64(t, l+".s")
		p := vk.NewPRNG(s)
		seedLib(s)
		kind := vk.Int(t, l+".kind", 0, 9)
		switch {
		case kind <= 3 && len(x.derive) > 0 && len(all) < 6:
			d := x.derive[vk.Int(t, l+".d", 0, len(x.derive)-1)]
			o := d.f(p)
			check()
			if o == nil {
				continue
			}
			add(o, fmt.Sprintf("%s of #%d (%d)", d.name, x.id, s))
			made++
		case kind == 4 && len(x.absorb) > 0 && len(all) < 6:
			d := x.absorb[vk.Int(t, l+".d", 0, len(x.absorb)-1)]
			o := d.f(p)
			hist = append(hist, fmt.Sprintf("%s into #%d (%d)", d.name, x.id, s))
			check(x.id)
			add(o, "the argument")
			made++
		case kind == 5 && len(x.buffers) > 0:
			b := x.buffers[vk.Int(t, l+".d", 0, len(x.buffers)-1)]
			hist = append(hist, fmt.Sprintf("%s on #%d (%d)", b.name, x.id, s))
			o, scribble := b.f(p)
			check(x.id)
			if o != nil {
				w := o.show()
				scribble()
				must(t, hist, "overwriting the buffer changed the object made from it", w, o.show())
			} else {
				scribble()
			}
			hist = append(hist, "buffer overwritten")
			check()
			made++
		case kind == 6 && x.reset != nil:
			hist = append(hist, fmt.Sprintf("reset #%d", x.id))
			x.reset()
			check(x.id)
		case kind == 7 && len(x.reads) > 0:
			r := x.reads[vk.Int(t, l+".d", 0, len(x.reads)-1)]
			hist = append(hist, fmt.Sprintf("read %s of #%d (%d)", r.name, x.id, s))
			r.f(p)
			check()
		default:
			if x.step == nil {
				continue
			}
			hist = append(hist, fmt.Sprintf("step #%d %d", x.id, s))
			x.step(p)
			check(x.id)
		}
	}
	if made > 0 {
		c.NT(strings.Join(hist, ";"))
	}
	if c.WantSample() {
		c.Sample("%s", strings.Join(hist, "; "))
	}
}

// ---------------------------------------------------------------- E01

// eReset: after Reset like new, for every later history.
func eReset(t *rapid.T, c *vk.Case) {
	fresh, name := drawFamily(t, c)
	a := fresh()
	if a.reset == nil || a.step == nil {
		c.Class("no reset")
		return
	}
	hist := []string{name}
	rounds := vk.Int(t, "rounds", 1, 2)
	for r := 0; r < rounds; r++ {
		for i, n := 0, vk.Int(t, fmt.Sprintf("pre%d", r), 1, 6); i < n; i++ {
			s := u64(t, fmt.Sprintf("p%d.%d", r, i))
			seedLib(s)
			a.step(vk.NewPRNG(s))
			hist = append(hist, fmt.Sprintf("step %d", s))
			if s%5 == 0 {
				rd := a.reads[int(s/5%uint64(len(a.reads)))]
				rd.f(vk.NewPRNG(s))
				hist = append(hist, "read "+rd.name)
			}
		}
		a.reset()
		hist = append(hist, "reset")
	}
	b := fresh()
	if vk.Chance(t, "look", 1, 2) {
		must(t, hist, "after the reset the object differs from a new one", b.twin(), a.twin())
	}
	n := vk.Int(t, "post", 0, 6)
	for i := 0; i < n; i++ {
		s := u64(t, fmt.Sprintf("s%d", i))
		hist = append(hist, fmt.Sprintf("step %d", s))
		seedLib(s)
		a.step(vk.NewPRNG(s))
		seedLib(s)
		b.step(vk.NewPRNG(s))
		if vk.Chance(t, fmt.Sprintf("look%d", i), 1, 3) {
			must(t, hist, "the reset object differs from a new one with the same later history", b.twin(), a.twin())
		}
	}
	must(t, hist, "the reset object differs from a new one with the same later history", b.twin(), a.twin())
	c.NT(strings.Join(hist, ";"))
	if c.WantSample() {
		c.Sample("%s", strings.Join(hist, "; "))
	}
}

// eFail: refused calls leave no trace.
func eFail(t *rapid.T, c *vk.Case) {
	fresh, name := drawFamily(t, c)
	a, b := fresh(), fresh()
	if len(a.fails) == 0 {
		c.Class("nothing to refuse")
		return
	}
	hist := []string{name}
	quiet := vk.Chance(t, "quiet", 1, 2)
	nf := 0
	try := func(i int) {
		for j, k := 0, vk.Int(t, fmt.Sprintf("fails%d", i), 0, 2); j < k; j++ {
			l := fmt.Sprintf("f%d.%d", i, j)
			f := b.fails[vk.Int(t, l, 0, len(b.fails)-1)]
			s := u64(t, l+".s")
			hist = append(hist, fmt.Sprintf("refused %s (%d)", f.name, s))
			before := ""
			if !quiet {
				before = b.show()
			}
			err := f.f(vk.NewPRNG(s))
			if err == errSkip {
				hist = append(hist[:len(hist)-1:len(hist)-1], "skipped")
				continue
			}
			if err == nil {
				t.Fatalf("%s was accepted\nhistory: %s", f.name, strings.Join(hist, "; "))
			}
			if !quiet {
				must(t, hist, "the refused call changed the answers", before, b.show())
			}
			nf++
		}
	}
	try(0)
	if a.step != nil {
		for i, n := 1, vk.Int(t, "steps", 1, 6); i <= n; i++ {
			s := u64(t, fmt.Sprintf("s%d", i))
			hist = append(hist, fmt.Sprintf("step %d", s))
			seedLib(s)
			a.step(vk.NewPRNG(s))
			seedLib(s)
			b.step(vk.NewPRNG(s))
			try(i)
		}
	}
	must(t, hist, "with the refused calls the object answers differently from one without", a.twin(), b.twin())
	if nf > 0 {
		c.NT(strings.Join(hist, ";"))
	}
	if c.WantSample() {
		c.Sample("%s", strings.Join(hist, "; "))
	}
}
