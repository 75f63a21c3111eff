package hc

import "github.com/leonelquinteros/gotext/zzverif/sym"

// C18: operations on a shared object all finish, and leave no lock behind.

// probe uses every lock of the object as a writer and as a reader.
func (o *obj) probe() {
	o.do.SetPluralResolver(nil)
	o.do.Set("probe", "x")
	sym.Assert(o.c.Get("probe") == "x", "the object is usable afterwards")
	o.c.GetN("p", "q", 1)
}

func C18_Catalogue() {
	ops := catOps()
	kind := sym.Choose("kind", 2)
	i, j := chooseOps(ops, len(reads), true)
	o := newObj(kind, 2, "a")
	sym.ParLocks(2+sym.Tier(),
		func() { ops[i].run(o) },
		func() { ops[j].run(o) })
	o.probe()
	sym.Reach("done")
}

// one operation of every locking pattern
func threeOps() []op {
	want := []string{"Get", "GetN", "GetNC absent", "IsTranslatedN", "MarshalText", "Set", "SetN", "SetNC", "SetPluralResolver", "Parse"}
	var out []op
	for _, w := range want {
		for _, o := range catOps() {
			if o.name == w {
				out = append(out, o)
			}
		}
	}
	return out
}

func C18_Three() {
	ops := threeOps()
	i := sym.Choose("first", len(ops))
	j := sym.Choose("second", i+1)
	k := sym.Choose("third", j+1)
	o := newObj(2, 2, "a")
	sym.ParLocks(1+sym.Tier(),
		func() { ops[i].run(o) },
		func() { ops[j].run(o) },
		func() { ops[k].run(o) })
	o.probe()
	sym.Reach("done")
}
