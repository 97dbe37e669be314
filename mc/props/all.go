// Package props holds the sequential properties.
package props

import "birchmc/engine"

// All lists them.
var All = []*engine.Property{C01, C02, C03, C04, C05, C06, C07, C08, C09, C10, C11, M01, M02, M03, F01, F02, F03, F04, F07, E04}
