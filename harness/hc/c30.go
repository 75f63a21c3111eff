package hc

import "github.com/leonelquinteros/gotext/zzverif/sym"

// C30: two concurrent operations give what one of the two orders gives.

func atomicOps(kind int) {
	ops := catOps()
	i, j := chooseOps(ops, len(reads), false)
	n := sym.Int("n")
	sym.Assume(n >= 0 && n < 1<<32)
	id := []string{"a", "b"}[sym.Choose("id", 2)]
	o := newObj(kind, n, id)
	var r1, r2 string
	sym.Par(2+sym.Tier(),
		func() { r1 = ops[i].run(o) },
		func() { r2 = ops[j].run(o) })
	st := o.state()

	a := newObj(kind, n, id)
	a1 := ops[i].run(a)
	a2 := ops[j].run(a)
	b := newObj(kind, n, id)
	b2 := ops[j].run(b)
	b1 := ops[i].run(b)
	sym.Observe("first", r1)
	sym.Observe("second", r2)
	inOrder := sym.And(sym.And(r1 == a1, r2 == a2), st == a.state())
	reversed := sym.And(sym.And(r1 == b1, r2 == b2), st == b.state())
	sym.Assert(sym.Or(inOrder, reversed), "the result is that of one of the two orders")
	sym.Reach("done")
}

func C30_Po()     { atomicOps(0) }
func C30_Mo()     { atomicOps(1) }
func C30_Domain() { atomicOps(2) }
