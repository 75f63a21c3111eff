package h

import (
	"github.com/leonelquinteros/gotext"
	"github.com/leonelquinteros/gotext/zzverif/sym"
)

type appender interface {
	lookups
	Append(b []byte, str string, vars ...interface{}) []byte
	AppendN(b []byte, str, plural string, n int, vars ...interface{}) []byte
	AppendC(b []byte, str, ctx string, vars ...interface{}) []byte
	AppendNC(b []byte, str, plural string, n int, ctx string, vars ...interface{}) []byte
}

// C06_Append: appending a lookup gives the buffer followed by the lookup.
func C06_Append() {
	ops := 1
	if sym.Tier() == 1 {
		ops = 2
	}
	r := rules[4*sym.Choose("rule", 2)]
	po := newPo(r)
	m := &model{rule: r.form}
	args := sym.Choose("vars", 2) == 1
	if args {
		idTail = "%s"
	}
	history(po, m, ops, func(k int) string { return sym.String("text", sym.Choose("textlen", 2)) })
	idTail = ""
	var a appender = po
	switch sym.Choose("target", 3) {
	case 1:
		a = po.GetDomain()
	case 2:
		// The same content behind the MO front end.
		mo := gotext.NewMo()
		data, err := po.MarshalBinary()
		sym.Assert(err == nil, "binary encoding succeeds")
		sym.Assert(mo.UnmarshalBinary(data) == nil, "binary decoding succeeds")
		a = mo
	}
	appendLike(a, args)
}

func appendLike(a appender, args bool) {
	shape := sym.Choose("shape", 3) // empty, full, with spare capacity
	pre := sym.String("pre", []int{0, 2, 1}[shape])
	room := []int{0, 0, 8}[shape]
	b := append(make([]byte, 0, len(pre)+room), pre...)
	id := sym.String("qid", 1)
	ctx := sym.String("qctx", 1)
	n := int(sym.Uint32("qn"))
	var vars []interface{}
	if args {
		id += "%s"
		vars = append(vars, "v")
	}
	var got []byte
	var want string
	switch sym.Choose("query", 4) {
	case 0:
		got, want = a.Append(b, id, vars...), a.Get(id, vars...)
	case 1:
		got, want = a.AppendN(b, id, id+"s", n, vars...), a.GetN(id, id+"s", n, vars...)
	case 2:
		got, want = a.AppendC(b, id, ctx, vars...), a.GetC(id, ctx, vars...)
	case 3:
		got, want = a.AppendNC(b, id, id+"s", n, ctx, vars...), a.GetNC(id, id+"s", n, ctx, vars...)
	}
	sym.Observe("got", string(got))
	sym.Assert(string(got) == pre+want, "the result is the buffer followed by what the lookup returns")
	sym.Assert(string(b) == pre, "the bytes already in the buffer are untouched")
	sym.Reach("end")
}
