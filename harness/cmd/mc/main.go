package main

import (
	"strip.verif/mc"
	_ "strip.verif/props"
)

func main() { mc.Main() }
