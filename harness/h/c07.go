package h

import (
	"github.com/leonelquinteros/gotext"
	"github.com/leonelquinteros/gotext/zzverif/sym"
)

// C07_Consistent: a string is reported as translated exactly when looking it
// up gives a stored text.
func C07_Consistent() {
	r := rules[sym.Choose("rule", len(rules)-1+sym.Tier())]
	po := newPo(r)
	ops := 1
	if sym.Tier() == 1 {
		ops = 2
	}
	m := &model{rule: r.form, wide: r.header == ""}
	// Stored texts start with a byte no id starts with.
	history(po, m, ops, func(k int) string {
		if sym.Choose("blank", 2) == 1 {
			return ""
		}
		return "\x01" + sym.String("text", 1)
	})
	var tr gotext.Translator = po
	if sym.Choose("mo", 2) == 1 {
		mo := gotext.NewMo()
		data, err := po.MarshalBinary()
		sym.Assert(err == nil && mo.UnmarshalBinary(data) == nil, "binary round trip succeeds")
		tr = mo
	}
	var v view
	if tr != gotext.Translator(po) {
		v = layer(tr, 3*sym.Choose("view", 2))
	} else {
		v = chooseView(tr)
	}
	id := sym.String("qid", 1)
	sym.Assume(id[0] != 1)
	n := r.count("qn")
	ctx := "c"
	var is bool
	var got string
	query := sym.Choose("query", 4)
	if query > 1 && sym.Choose("nocontext", 2) == 1 {
		ctx = ""
	}
	switch query {
	case 0:
		is, got = v.is(id), v.get(id)
	case 1:
		is, got = v.isN(id, n), v.getN(id, id+"s", n)
	case 2:
		is, got = v.isC(id, ctx), v.getC(id, ctx)
	case 3:
		is, got = v.isNC(id, n, ctx), v.getNC(id, id+"s", n, ctx)
	}
	sym.Observe("got", got)
	sym.ObserveBool("is", is)
	sym.Assert(is == (got != "" && got[0] == 1), v.name+": IsTranslated agrees with the lookup")
	if is {
		sym.Reach("translated")
	} else {
		sym.Reach("untranslated")
	}
}
