package main

import (
	"os"

	"birchmc/engine"
	"birchmc/props"
)

func main() { engine.Main(props.All, os.Args[1:]) }
