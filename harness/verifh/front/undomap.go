package front

import (
	"github.com/gabivlj/candice/internals/undomap"
	rt "github.com/gabivlj/candice/internals/verifrt"
)

// H_C08_undomap: arbitrary histories of scoped-map operations against a
// reference stack.
func H_C08_undomap() {
	n := 4
	m := undomap.New[string, int64]()
	type ent struct {
		k byte
		v int64
	}
	var ref []ent
	for i := 0; i < n; i++ {
		if len(ref) > 0 && rt.Choose("op", 2) == 1 {
			k, v := m.Pop()
			top := ref[len(ref)-1]
			ref = ref[:len(ref)-1]
			rt.Assert(k == string([]byte{top.k}), "pop key")
			rt.Assert(v == top.v, "pop value")
		} else {
			k := rt.Byte("key")
			rt.Assume(k < 128)
			v := rt.Int64("val")
			m.Add(string([]byte{k}), v)
			ref = append(ref, ent{k, v})
		}
		q := rt.Byte("q")
		rt.Assume(q < 128)
		got := m.Get(string([]byte{q}))
		want := int64(0)
		for _, e := range ref {
			if e.k == q {
				want = e.v
			}
		}
		rt.Assert(got == want, "get innermost")
		rt.Log("got", got)
	}
	rt.Cover("end")
}
