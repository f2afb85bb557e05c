package cross_test

import "slices"

var families = slices.Concat(thetaFamilies, tupleFamilies, hllFamilies, quantileFamilies, itemFamilies)
