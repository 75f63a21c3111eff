package h

import (
	"github.com/leonelquinteros/gotext"
	"github.com/leonelquinteros/gotext/zzverif/sym"
)

func usableMo(mo *gotext.Mo, write bool) {
	v := viewOf("mo", mo)
	v.get("q")
	v.getN("q", "qs", 3)
	v.getC("q", "c")
	v.getNC("q", "qs", 1, "c")
	v.isN("q", 1)
	if write {
		if _, err := mo.GetDomain().MarshalText(); err != nil {
			sym.Fail("MarshalText succeeds")
		}
	}
	mo.GetDomain().Set("new", "neu")
	sym.Assert(mo.Get("new") == "neu", "the catalogue takes new translations")
	mo.Parse(buildMo([]moEntry{{"zz", "ZZ"}}, false, 0, false))
	sym.Assert(mo.Get("zz") == "ZZ", "the catalogue can be loaded again")
	sym.Reach("usable")
}

// C11_Bytes: any short file, with and without the magic number.  Files that can
// hold a string table are left to the harnesses below.
func C11_Bytes() {
	b := sym.Bytes("file", []int{0, 1, 3, 4, 5, 8, 20, 27, 28, 32}[sym.Choose("len", 10)])
	switch sym.Choose("magic", 3) {
	case 1:
		if len(b) >= 4 {
			put32(b, 0, 0x950412de, false)
		}
	case 2:
		if len(b) >= 4 {
			put32(b, 0, 0x950412de, true)
		}
	}
	if len(b) >= 28 {
		for _, c := range []int{8, 11} {
			small := sym.And(b[c] > 0, b[c] <= byte(len(b)/8))
			rest := true
			for i := 8; i < 12; i++ {
				if i != c {
					rest = sym.And(rest, b[i] == 0)
				}
			}
			sym.Assume(!sym.And(small, rest))
		}
	}
	mo := gotext.NewMo()
	mo.Parse(b)
	usableMo(mo, false)
}

// C11_Header: a good file with any header.
func C11_Header() {
	big := sym.Choose("big", 2) == 1
	es := []moEntry{{"a", "b"}}
	if sym.Tier() == 1 {
		es = []moEntry{{"c\x04a\x00as", "A\x00B"}}
	}
	b := buildMo(es, big, 0, false)
	switch sym.Choose("what", 4) {
	case 0:
		put32(b, 8, sym.Uint32("count"), big)
	case 1:
		put32(b, 12, sym.Uint32("ids"), big)
	case 2:
		put32(b, 16, sym.Uint32("strs"), big)
	case 3:
		put32(b, 4, sym.Uint32("version"), big)
		put32(b, 8, 1, big)
		put32(b, 12, sym.Uint32("ids"), big)
		put32(b, 16, sym.Uint32("strs"), big)
	}
	mo := gotext.NewMo()
	mo.Parse(b)
	usableMo(mo, true)
}

// C11_Tables: a good header and any table entry.
func C11_Tables() {
	big := sym.Choose("big", 2) == 1
	es := []moEntry{{"a", "b"}}
	if sym.Tier() == 1 {
		es = []moEntry{{"c\x04a\x00as", "A\x00B"}}
	}
	b := buildMo(es, big, 0, false)
	k := sym.Choose("entry", 2)
	put32(b, 28+8*k, sym.Uint32("len"), big)
	put32(b, 28+8*k+4, sym.Uint32("off"), big)
	mo := gotext.NewMo()
	mo.Parse(b)
	usableMo(mo, true)
}

// C11_Strings: any bytes where the strings are.
func C11_Strings() {
	big := sym.Choose("big", 2) == 1
	k := 3
	if sym.Tier() == 1 {
		k = 4
	}
	id, str := sym.String("id", sym.Choose("idlen", k+1)), sym.String("str", sym.Choose("strlen", k+1))
	if id == "" || id[0] <= 4 {
		for i := 0; i < len(str); i++ {
			sym.Assume(str[i] < 0x80) // header names
		}
	}
	mo := gotext.NewMo()
	mo.Parse(buildMo([]moEntry{{id, str}, {"ok", "OK"}}, big, 0, false))
	sym.Assert(id == "ok" || mo.Get("ok") == "OK", "the other entries are read")
	usableMo(mo, true)
}

// C11_Truncated: a good file cut anywhere.
func C11_Truncated() {
	big := sym.Choose("big", 2) == 1
	b := buildMo([]moEntry{moHeader(rules[1]), {"c\x04a\x00as", "A\x00B"}, {"x", "y"}}, big, 1, sym.Choose("swap", 2) == 1)
	mo := gotext.NewMo()
	mo.Parse(b[:sym.Choose("cut", len(b)+1)])
	usableMo(mo, true)
}
