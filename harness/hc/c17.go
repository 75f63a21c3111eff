package hc

import (
	"strconv"

	"github.com/leonelquinteros/gotext"
	"github.com/leonelquinteros/gotext/plurals"
	"github.com/leonelquinteros/gotext/zzverif/sym"
)

// C17: operations on a shared object never race.

func race(kind int, both bool) {
	ops := catOps()
	i, j := chooseOps(ops, len(reads), both)
	o := newObj(kind, 2, "a")
	sym.ParRace(1+sym.Tier(),
		func() { ops[i].run(o) },
		func() { ops[j].run(o) })
	sym.Reach("done")
}

func C17_Po() { race(0, true) }
func C17_Mo() { race(1, true) }

// sepOps are operations that share nothing with those on another object.
func sepOps() []op {
	ops := catOps()
	return append(ops,
		op{"Compile", func(o *obj) string {
			e, err := plurals.Compile("n % 10 == 1 ? 0 : n != 2 && n > 3 || n <= 1 ? 1 : 2")
			if err != nil {
				return err.Error()
			}
			return strconv.Itoa(e.Eval(uint32(o.n)))
		}},
		op{"SimplifiedLocale", func(o *obj) string { return gotext.SimplifiedLocale("aa_BB.UTF-8@x") }},
		op{"FormatString", func(o *obj) string { return gotext.FormatString("%d %s", o.n, o.id) }},
		op{"Sprintf", func(o *obj) string {
			return gotext.Sprintf("%(k)s %(v)d", map[string]interface{}{"k": o.id, "v": o.n})
		}},
		op{"NewPo", func(o *obj) string { return newObj(0, o.n, o.id).c.Get(o.id) }},
		op{"NewMo", func(o *obj) string { return newObj(1, o.n, o.id).c.Get(o.id) }},
		op{"NewLocale", func(o *obj) string {
			l := gotext.NewLocale("", "aa_BB")
			l.AddTranslator("d", o.po)
			return l.Get(o.id)
		}})
}

func C17_Separate() {
	ops := sepOps()
	j := sym.Choose("second", len(ops))
	i := sym.Choose("first", j+1)
	o, p := newObj(0, 2, "a"), newObj(0, 3, "a")
	var r1, r2 string
	sym.ParRace(1+sym.Tier(),
		func() { r1 = ops[i].run(o) },
		func() { r2 = ops[j].run(p) })
	q, r := newObj(0, 2, "a"), newObj(0, 3, "a")
	sym.Assert(r1 == ops[i].run(q) && r2 == ops[j].run(r), "separate objects do not disturb each other")
	sym.Reach("done")
}
