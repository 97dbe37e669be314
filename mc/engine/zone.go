package engine

import (
	"time"
	_ "time/tzdata"
)

// Zone is the time zone everything runs in: one with summer time and an offset,
// so that what depends on the local zone, and must not, shows.
var Zone = func() *time.Location {
	l, err := time.LoadLocation("America/New_York")
	if err != nil {
		panic(err)
	}
	return l
}()

func init() { time.Local = Zone }
