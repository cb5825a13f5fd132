// Command mc runs the checks that work on a complete server in this process.
package main

import "idmverif/lib/run"

var checks []*run.Check

func register(c *run.Check) { checks = append(checks, c) }

func main() { run.Main(checks) }
