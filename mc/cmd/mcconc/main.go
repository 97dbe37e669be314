package main

import (
	"fmt"
	"os"

	"birchmc/conc"
	"birchmc/engine"
	"birchmc/mcrt"
)

func main() {
	if err := mcrt.SelfTest(); err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	last := 0
	engine.Check = func() string {
		n := mcrt.RaceErrors()
		if n > last {
			last = n
			return "data race"
		}
		return ""
	}
	engine.MainSharded(conc.All, os.Args[1:])
}
