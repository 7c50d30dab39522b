//go:build go1.21

package main

// opDump dumps the cache: it must not disturb it.
func opDump() Op {
	return Op{"dump", func(h *H) { h.I.Dumps(true) }}
}
