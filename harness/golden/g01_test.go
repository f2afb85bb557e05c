package golden_test

import (
	"testing"

	"verif/vk"
)

func TestG01(t *testing.T) {
	vk.Property(t, "G01", "the image is not empty or the follow-up operations are not",
		vk.Sub{Name: "theta", Quick: 600, Thorough: 10000, Fn: gTheta},
		vk.Sub{Name: "tuple", Quick: 600, Thorough: 10000, Fn: gTuple},
		vk.Sub{Name: "hll", Quick: 300, Thorough: 10000, Fn: gHll},
		vk.Sub{Name: "cpc", Quick: 300, Thorough: 10000, Fn: gCpc},
		vk.Sub{Name: "kll", Quick: 300, Thorough: 10000, Fn: gKll},
		vk.Sub{Name: "tdigest", Quick: 300, Thorough: 10000, Fn: gTdigest},
		vk.Sub{Name: "frequencies", Quick: 400, Thorough: 10000, Fn: gFreq},
		vk.Sub{Name: "bloom", Quick: 300, Thorough: 4000, Fn: gBloom},
		vk.Sub{Name: "reservoir", Quick: 600, Thorough: 20000, Fn: gReservoir},
		vk.Sub{Name: "varopt", Quick: 600, Thorough: 20000, Fn: gVaropt})
}
