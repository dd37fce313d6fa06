package e2e

import "verifharness/vals"

var intKind = vals.Int(4, false)

func intVal(v uint64) vals.Val { return vals.IntVal(4, false, v) }
