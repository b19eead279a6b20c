//go:build go1.21

package main

import (
	"github.com/blocktree/go-owcdrivers/zzverif/drv/chainprop"
	"github.com/blocktree/go-owcdrivers/zzverif/mc"
)

func main() {
	chainprop.Register("T01", "T02", true)
	mc.Main()
}
