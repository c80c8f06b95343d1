// Package rtypes has the name of another package, and types of the same names
// that are something else.
package rtypes

type (
	Str   []byte
	Slice func()
	Arr   [4]string
	Map   struct{ B string }
	St    interface{ A() int }
	If    map[string]int
	Ptr   chan int
	Gint8 float32
)
