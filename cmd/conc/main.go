// Command conc checks the connection, protocol and threading properties of the
// library: the instrumented library runs against a simulated publisher under a
// controlled scheduler, network and clock.
package main

import "verif.local/mc/mc"

var checks []mc.Check

func register(c mc.Check) { checks = append(checks, c) }

func main() { mc.Main(checks) }
