package cross_test

import (
	"testing"

	"verif/vk"
)

func TestE01(t *testing.T) {
	vk.Property(t, "E01", "non-trivial: a history with at least one reset of a used object, at least one refused call, or a constructor argument on either side of a bound",
		vk.Sub{Name: "reset", Quick: 12000, Thorough: 300000, Fn: eReset},
		vk.Sub{Name: "fail", Quick: 12000, Thorough: 300000, Fn: eFail},
		vk.Sub{Name: "construct", Quick: 4000, Thorough: 60000, Fn: eConstruct})
}
