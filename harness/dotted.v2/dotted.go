// Package dotted has a dot in the last element of its path.
package dotted

//go:noinline
func Call(f func()) { f(); mark++ }

var mark int

// T has methods.
type T struct{ n int }

//go:noinline
func (t *T) Ptr(f func()) { f(); t.n++ }

//go:noinline
func (t T) Val(f func()) { func() { f(); mark++ }(); mark += t.n }

//go:noinline
func Generic[X any](x X, f func()) X { f(); mark++; return x }
