// Command verifharness decides the properties of scte35-go.
package main

import (
	_ "verifharness/checks"
	"verifharness/core"
)

func main() { core.Main() }
