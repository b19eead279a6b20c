//go:build go1.21

package main

type shortChild struct {
	curve uint32
	idx   uint32
}

// hardened children of seedOf(0)'s root whose key starts with 1, 2 and 3 zero bytes (found by search.go)
var shortChildren = []shortChild{
	{cK1, 1<<31 + 736}, {cK1, 1<<31 + 68252}, {cK1, 1<<31 + 922061},
	{cR1, 1<<31 + 736}, {cR1, 1<<31 + 68252}, {cR1, 1<<31 + 922061},
	{cSM2, 1<<31 + 736}, {cSM2, 1<<31 + 68252}, {cSM2, 1<<31 + 922061},
	{cBN, 1<<31 + 76}, {cBN, 1<<31 + 22997}, {cBN, 1<<31 + 2128681},
	{cBA, 1<<31 + 76}, {cBA, 1<<31 + 22997}, {cBA, 1<<31 + 2128681},
}
