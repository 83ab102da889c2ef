// Command pure checks the properties of the sequential packages of the library
// by exhaustive bounded enumeration on the unmodified code.
package main

import "verif.local/mc/mc"

var checks []mc.Check

func register(c mc.Check) { checks = append(checks, c) }

func main() { mc.Main(checks) }

// guard runs f and turns a panic into a violation with the given key.
func guard(c *mc.C, key string, f func()) {
	defer func() {
		if e := recover(); e != nil {
			if mc.IsStop(e) {
				panic(e)
			}
			c.Fail(key, "panic: %v", e)
		}
	}()
	f()
}
