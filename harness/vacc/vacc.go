// Package vacc has the memory accesses that the environment makes on behalf of
// the code under test: they count when data races are looked for.
package vacc

// Copy is copy.
func Copy(dst, src []byte) int { return copy(dst, src) }
