//go:build go1.21

package main

import "runtime"

// yieldNow hands the processor to the other goroutines of the code under test
// (the log writer, the trace reader) until each of them blocks.
func yieldNow() {
	for i := 0; i < 4; i++ {
		runtime.Gosched()
	}
}
