package h

import (
	"github.com/leonelquinteros/gotext"
	"github.com/leonelquinteros/gotext/zzverif/sym"
)

// moText is text of an MO file: any bytes but NUL and EOT, which are structure.
func moText(name string, n int) string {
	s := sym.String(name, n)
	for i := 0; i < len(s); i++ {
		sym.Assume(sym.And(s[i] != 0, s[i] != 4))
	}
	return s
}

// mo is the pair msgfmt writes for an entry.
func (e poEntry) mo() moEntry {
	id, str := e.id, ""
	if e.plural != "" {
		id += "\x00" + e.plural
	}
	if e.ctx != "" {
		id = e.ctx + "\x04" + id
	}
	for i, s := range e.strs {
		if i > 0 {
			str += "\x00"
		}
		str += s
	}
	return moEntry{id, str}
}

func chooseMoEntry(name string, k int) poEntry {
	e := poEntry{id: name + moText("id", k), strs: []string{moText("t", k)}}
	switch sym.Choose("shape", 4) {
	case 1:
		e.ctx = moText("ctx", k)
	case 2:
		e.plural = moText("plural", k)
		e.strs = append(e.strs, moText("t2", k))
	case 3:
		e.ctx = moText("ctx", k)
		e.plural = moText("plural", k)
		e.strs = append(e.strs, moText("t2", k))
	}
	return e
}

// C10_Entries: any entries in any layout and byte order.
func C10_Entries() {
	k, n := 1, 2
	if sym.Tier() == 1 {
		k, n = 2, 2
	}
	var es []poEntry
	var ms []moEntry
	r := rules[[]int{0, 1, 4}[sym.Choose("rule", 3)]]
	if sym.Choose("header", 2) == 1 {
		ms = append(ms, moHeader(r))
	} else {
		r = rules[0]
	}
	for i := 0; i < n; i++ {
		e := chooseMoEntry([]string{"a", "b"}[i], k)
		es = append(es, e)
		ms = append(ms, e.mo())
	}
	b := buildMo(ms, sym.Choose("big", 2) == 1, []int{0, 3}[sym.Choose("gap", 2)], sym.Choose("swap", 2) == 1)
	mo := gotext.NewMo()
	mo.Parse(b)
	v := viewOf("mo", mo)
	for _, e := range es {
		e.found(v, r, true)
	}
	sym.Assert(v.get("zz") == "zz" && v.getC("zz", "c") == "zz", "an id that is not in the file is returned as it is")
	sym.Reach("end")
}

// found asserts that a catalogue answers what the entry says for every count.
func (e poEntry) found(v view, r rule, alone bool) {
	if e.plural == "" {
		var got string
		if e.ctx == "" {
			got = v.get(e.id)
		} else {
			got = v.getC(e.id, e.ctx)
			sym.Assert(!alone || v.get(e.id) == e.id, "an entry with a context is found in it only")
		}
		sym.Observe("got", got)
		want := e.strs[0]
		if want == "" {
			want = e.id
		}
		sym.Assert(got == want, "a lookup returns the translation of the file")
		return
	}
	n := int(sym.Uint32("n"))
	f := r.form(n)
	want := ""
	for i, s := range e.strs {
		if i == f {
			want = s
		}
	}
	if want == "" {
		want = e.plural
		if f == 0 {
			want = e.id
		}
	}
	var got string
	if e.ctx == "" {
		got = v.getN(e.id, e.plural, n)
	} else {
		got = v.getNC(e.id, e.plural, n, e.ctx)
		sym.Assert(!alone || v.get(e.id) == e.id, "an entry with a context is found in it only")
	}
	sym.Observe("got", got)
	sym.Assert(got == want, "a plural lookup returns the selected form of the file")
}

// C10_Order: every entry is found wherever it stands and whatever the version
// and hash fields of the header say.
func C10_Order() {
	es := []poEntry{
		{"", "a", "", []string{"A"}},
		{"c", "a", "", []string{"CA"}},
		{"", "b", "bs", []string{"B0", "B1"}},
		{"d", "b", "bs", []string{"DB0", "DB1"}},
		{"", "u", "", []string{""}},
	}
	n := len(es)
	rot := sym.Choose("rot", n)
	rev := sym.Choose("rev", 2) == 1
	var ms []moEntry
	at := sym.Choose("headat", n)
	for i := range es {
		k := (i + rot) % n
		if rev {
			k = n - 1 - k
		}
		if i == at {
			ms = append(ms, moHeader(rules[1]))
		}
		ms = append(ms, es[k].mo())
	}
	big := sym.Choose("big", 2) == 1
	b := buildMo(ms, big, 0, false)
	major, minor := sym.Uint16("major"), sym.Uint16("minor")
	sym.Assume(sym.And(major <= 1, minor <= 1))
	if big {
		b[4], b[5], b[6], b[7] = byte(major>>8), byte(major), byte(minor>>8), byte(minor)
	} else {
		b[4], b[5], b[6], b[7] = byte(major), byte(major>>8), byte(minor), byte(minor>>8)
	}
	put32(b, 20, sym.Uint32("hashsize"), big)
	put32(b, 24, sym.Uint32("hashoff"), big)
	mo := gotext.NewMo()
	mo.Parse(b)
	v := viewOf("mo", mo)
	for _, e := range es {
		e.found(v, rules[1], false)
	}
	sym.Assert(mo.Language == "xx" && mo.Headers.Get("Language") == "xx" && mo.GetDomain().Language == "xx", "the headers are read")
	sym.Reach("end")
}

// C10_Forms: every plural form of an entry, whatever their number.
func C10_Forms() {
	f := headerFormulas[[]int{0, 1, 6, 16}[sym.Choose("formula", 4)]]
	texts := make([]string, f.n)
	for i := range texts {
		texts[i] = moText("t", sym.Choose("len", 2)) + []string{"", "x"}[i&1]
	}
	header := "nplurals=" + digit(f.n) + "; plural=" + f.text + ";"
	e := poEntry{"", "id", "ids", texts}
	if sym.Choose("ctx", 2) == 1 {
		e.ctx = "c"
	}
	mo := gotext.NewMo()
	mo.Parse(buildMo([]moEntry{{"", "Plural-Forms: " + header + "\n"}, e.mo()}, sym.Choose("big", 2) == 1, 0, false))
	e.found(viewOf("mo", mo), rule{header, func(n int) int { k, _ := CEval(f.text, uint32(n)); return k }, f.n}, true)
	sym.Reach("end")
}

// C10_Pieces: the strings of a file may stand anywhere in it, share bytes with
// each other and lack the final NUL.
func C10_Pieces() {
	big := sym.Choose("big", 2) == 1
	const at = 28 + 4*8
	b := make([]byte, at)
	put32(b, 0, 0x950412de, big)
	put32(b, 8, 2, big)
	put32(b, 12, 28, big)
	put32(b, 16, 28+16, big)
	put32(b, 24, at, big)
	pool := "q" + moText("pool", 3+sym.Tier())
	piece := func(field int, nm string, min int) string {
		l := min + sym.Choose(nm+".len", 3)
		o := sym.Choose(nm+".at", len(pool)+1)
		if o+l > len(pool) {
			sym.Assume(false)
		}
		put32(b, field, uint32(l), big)
		put32(b, field+4, uint32(at+o), big)
		return pool[o : o+l]
	}
	id := piece(28, "id", 1)
	str := piece(28+16, "str", 0)
	id2 := "q"
	put32(b, 28+8, 1, big)
	put32(b, 28+12, at, big)
	str2 := piece(28+24, "str2", 1)
	sym.Assume(id != id2)
	mo := gotext.NewMo()
	mo.Parse(append(b, pool...))
	if str == "" {
		str = id
	}
	sym.Assert(mo.Get(id) == str, "a string is found wherever it stands in the file")
	sym.Assert(mo.Get(id2) == str2, "a string is found wherever it stands in the file")
	sym.Reach("end")
}
