package cross_test

import (
	"testing"

	"verif/vk"
)

func TestQ01(t *testing.T) {
	vk.Property(t, "Q01", "non-trivial: a history with at least one read between or after the writes (reads), or with at least one derived object, absorbed argument or overwritten buffer (derived)",
		vk.Sub{Name: "reads", Quick: 12000, Thorough: 300000, Fn: qReads},
		vk.Sub{Name: "derived", Quick: 12000, Thorough: 300000, Fn: qDerived})
}
