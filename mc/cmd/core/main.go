package main

import (
	"os"

	"verif/mc/rt"
)

var checks = []*rt.Check{c01, c02, c03, c04, c05, c06, c07, c08, c10, c11, c12, c13, c14, c16, c17, c18, c19, c20, c22, c23, c24, c25, c26, c27}

func main() {
	if len(os.Args) > 1 && os.Args[1] == "-arch" {
		archMain(os.Args[2:])
		return
	}
	rt.Main(checks)
}
