package main

import "testing"

// allocs is the number of heap allocations of one run of f (the least of several measurements: whatever the rest
// of the process may be allocating meanwhile does not count)
func allocs(f func()) int {
	least := -1
	for k := 0; k < 5; k++ {
		n := int(testing.AllocsPerRun(4, f))
		if least < 0 || n < least {
			least = n
		}
		if least == 0 {
			break
		}
	}
	return least
}
