package main

import (
	"os"

	"github.com/cespedes/accounting/zzvx/hx"
	"github.com/cespedes/accounting/zzvx/vx"
)

func init() {
	if f := hx.Table[os.Getenv("VX_HARNESS")]; f != nil {
		vx.Run(f)
	}
}
