//go:build go1.21

package main

import "github.com/blocktree/go-owcdrivers/zzverif/mc"

func main() { mc.Main() }
