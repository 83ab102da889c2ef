// Package vruntime replaces package runtime in instrumented code.
package vruntime

import "verif.local/mc/shim/vrt"

// Gosched yields.
func Gosched() { vrt.Yield() }

// GC does nothing.
func GC() {}
