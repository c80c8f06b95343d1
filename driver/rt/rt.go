// Package rtypes (the directory's name differs on purpose) holds static types
// for the reflect conversions.
package rtypes

type (
	Str   string
	Slice []int
	Arr   [3]string
	Map   map[string]Str
	Ch    <-chan int
	Fn    func(int) Str
	St    struct{ A int }
	If    interface{ M() }
	Ptr   *int
	Gint8 int8
	Cplx  complex64
)
