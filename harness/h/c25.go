package h

import (
	"fmt"

	"github.com/leonelquinteros/gotext"
	"github.com/leonelquinteros/gotext/zzverif/sym"
)

// C25_Named: literals and named verbs in any order.  Every named verb prints
// its own parameter, wherever and however often it is used.
func C25_Named() {
	params := map[string]interface{}{"a": sym.String("va", 1), "b_2": int(sym.Byte("vb")), "Ab": "x%dy", "u": "unused"}
	names := []string{"a", "b_2", "Ab", "nope"}
	k := 2 + sym.Tier()
	format, want := "", ""
	for i := 0; i < k; i++ {
		switch sym.Choose("lit", 4) {
		case 1:
			lit := sym.String("lit", 1)
			sym.Assume(lit[0] != '%')
			format += lit
			want += lit
		case 2: // an escaped percent sign
			format += "%%"
			want += "%"
		case 3: // and one that looks like a named verb
			format += "%%(a)d%%%%"
			want += "%(a)d%%"
		}
		nm := names[sym.Choose("name", 4)]
		verb := []string{"v", "s", "5d", "x", ".1f"}[sym.Choose("verb", 5)]
		format += "%(" + nm + ")" + verb
		want += fmt.Sprintf("%"+verb, params[nm])
	}
	tail := []string{"", "100%% (a)s", "z", "%%"}[sym.Choose("tail", 2+2*sym.Tier())]
	format += tail
	want += fmt.Sprintf(tail)
	got := gotext.Sprintf(format, params)
	sym.Observe("got", got)
	sym.Assert(got == want, "every named verb prints its own parameter and the rest is kept")
	sym.Reach("end")
}

// C25_Text: a format that is any text around one named verb.
func C25_Text() {
	k := 2
	if sym.Tier() == 1 {
		k = 3
	}
	pre, post := sym.String("pre", sym.Choose("prelen", k)), sym.String("post", sym.Choose("postlen", k))
	// Percent signs are written twice.
	var wpre, wpost string
	pre, wpre = escaped(pre)
	post, wpost = escaped(post)
	v := sym.String("v", 1)
	got := gotext.Sprintf(pre+"%(name)s"+post, map[string]interface{}{"name": v})
	sym.Observe("got", got)
	sym.Assert(got == wpre+v+wpost, "text around a named verb is kept")
	sym.Reach("end")
}

// escaped writes a text as a format.
func escaped(s string) (format, text string) {
	for i := 0; i < len(s); i++ {
		if s[i] == '%' {
			format += "%"
		}
		format += s[i : i+1]
	}
	return format, s
}

// C25_Name: a name is letters, digits and underscores; anything else is not a
// named verb and is left to fmt.
func C25_Name() {
	c := sym.Byte("c")
	nm := "k" + string([]byte{c}) + "1"
	ok := sym.Or(sym.Or(sym.And(c >= 'a', c <= 'z'), sym.And(c >= 'A', c <= 'Z')), sym.Or(sym.And(c >= '0', c <= '9'), c == '_'))
	params := map[string]interface{}{nm: "val"}
	got := gotext.Sprintf("<%("+nm+")s>", params)
	if ok {
		sym.Assert(got == "<val>", "every letter, digit and underscore is part of a name")
		sym.Reach("name")
	} else {
		sym.Assert(got != "<val>", "other characters are not part of a name")
		sym.Reach("other")
	}
	verbs := "svTtbcdoqXxUeEfFgGp"
	d := sym.Byte("d")
	for i := 0; i < len(verbs); i++ {
		if verbs[i] == 'T' || verbs[i] == 'p' || verbs[i] == 'v' {
			continue
		}
		if d == verbs[i] {
			v := string([]byte{verbs[i]})
			sym.Assert(gotext.Sprintf("<%(k)"+v+">", map[string]interface{}{"k": 65}) == fmt.Sprintf("<%"+v+">", 65), "every verb of fmt can be named")
			sym.Reach("verb")
		}
	}
}

// C25_None: a format without named verbs is a plain format.
func C25_None() {
	k := 2
	if sym.Tier() == 1 {
		k = 3
	}
	s := sym.String("s", sym.Choose("len", k+1))
	for i := 0; i+1 < len(s); i++ {
		sym.Assume(!sym.And(s[i] == '%', s[i+1] == '('))
	}
	for _, p := range []map[string]interface{}{nil, {"a": 1}} {
		sym.Assert(gotext.Sprintf(s, p) == fmt.Sprintf(s), "a format without named verbs is a plain format")
	}
	sym.Reach("end")
}

// C25_Width: a width and a precision of any kind belong to the verb.
func C25_Width() {
	fl := sym.String("flags", sym.Choose("len", 3+sym.Tier()))
	for i := 0; i < len(fl); i++ {
		c := fl[i]
		sym.Assume(sym.Or(sym.And(c >= '0', c <= '9'), c == '.'))
	}
	verb := []string{"d", "s", "x", "v"}[sym.Choose("verb", 4)]
	var v interface{} = 7
	if verb == "s" {
		v = "z"
	}
	got := gotext.Sprintf("<%(a)"+fl+verb+"|%(b)"+verb+">", map[string]interface{}{"a": v, "b": v})
	sym.Observe("got", got)
	sym.Assert(got == fmt.Sprintf("<%"+fl+verb+"|%"+verb+">", v, v), "width and precision are those of the verb")
	sym.Reach("end")
}

// C25_Printed: NPrintf prints what Sprintf gives.
func C25_Printed() {
	params := map[string]interface{}{"a": sym.String("va", 1), "b_2": int(sym.Byte("vb")), "Ab": "x%dy"}
	names := []string{"a", "b_2", "Ab", "nope"}
	format := ""
	for i, k := 0, sym.Choose("verbs", 3+sym.Tier()); i < k; i++ {
		format += "%(" + names[sym.Choose("name", 4)] + ")" + []string{"v", "3d"}[sym.Choose("verb", 2)]
		format += []string{"", "%% "}[sym.Choose("lit", 2)]
	}
	format += sym.String("tail", sym.Choose("taillen", 2))
	want := gotext.Sprintf(format, params)
	got := sym.Printed(func() { gotext.NPrintf(format, params) })
	sym.Observe("got", got)
	sym.Assert(got == want, "NPrintf prints what Sprintf gives")
	sym.Assert(sym.Printed(func() { gotext.NPrintf(format, nil) }) == gotext.Sprintf(format, nil), "NPrintf prints what Sprintf gives")
	sym.Reach("end")
}

// C25_Params: a verb is given the parameter of exactly its name.
func C25_Params() {
	name := func(nm string) string {
		s := sym.String(nm, 1+sym.Choose(nm+".len", 2))
		for i := 0; i < len(s); i++ {
			c := s[i]
			sym.Assume(sym.Or(sym.Or(sym.And(c >= 'a', c <= 'z'), sym.And(c >= 'A', c <= 'Z')), sym.Or(sym.And(c >= '0', c <= '9'), c == '_')))
		}
		return s
	}
	a, q := name("a"), name("q")
	params := map[string]interface{}{a: "1"}
	b, vb := a, "1"
	if sym.Choose("params", 2) == 1 {
		b, vb = name("b"), "2"
		params[b] = vb
	}
	params["("+a+")"] = "no"
	want := "%!s(<nil>)"
	if q == b {
		want = vb
		sym.Reach("second")
	} else if q == a {
		want = "1"
		sym.Reach("first")
	}
	got := gotext.Sprintf("%("+q+")s%("+q+")s", params)
	sym.Observe("got", got)
	sym.Assert(got == want+want, "a verb prints the parameter of exactly its name, or nothing")
	sym.Reach("end")
}
