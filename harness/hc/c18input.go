package hc

import (
	"github.com/leonelquinteros/gotext"
	"github.com/leonelquinteros/gotext/zzverif/sym"
)

// C18_Input: reading something that is not what it should be leaves no lock
// behind either: any bytes in the head of an MO file, an MO file cut anywhere,
// any PO line, encoded data cut anywhere.
func C18_Input() {
	what := sym.Choose("what", 6)
	var kind int
	if what < 3 {
		kind = 1
	}
	o := newObj(kind, 2, "a")
	switch what {
	case 0:
		o.mo.Parse(sym.Bytes("file", []int{0, 1, 3, 4, 8, 20, 27}[sym.Choose("len", 7)]))
	case 1: // the tables of a good file, the head any
		b := moFile2()
		at := []int{0, 4, 8, 12, 16, 28, 32, 60, 64}[sym.Choose("at", 9)]
		copy(b[at:at+4], sym.Bytes("field", 4))
		if sym.Choose("version", 2) == 1 {
			copy(b[4:8], sym.Bytes("version", 4))
		}
		o.mo.Parse(b)
	case 2:
		b := moFile2()
		o.mo.Parse(b[:sym.Choose("cut", len(b)+1)])
	case 3:
		text := poText2
		for i := 0; i < 1+sym.Tier(); i++ {
			key := []string{"", "msgid", "msgid_plural", "msgstr", "msgstr[", "msgctxt", "#", "#:", "\""}[sym.Choose("key", 9)]
			text += key + " " + sym.String("rest", sym.Choose("len", 3+sym.Tier())) + "\n"
		}
		o.po.Parse([]byte(text))
	case 4:
		head := []string{"Plural-Forms", "plural-forms", "Language", "X"}[sym.Choose("name", 4)]
		val := []string{"", "nplurals", "nplurals=x; plural=", "nplurals=2; plural=(n", "nplurals=-1; plural=n%0", "=;=", "plural=n != 1"}[sym.Choose("value", 7)]
		sep := []string{":", "", "="}[sym.Choose("sep", 3)]
		o.po.Parse([]byte("msgid \"\"\nmsgstr \"" + head + sep + " " + val + "\\n\"\n"))
	case 5:
		// the first bytes tell the length of what follows
		cut := sym.Choose("cut", len(o.bin))
		if sym.Choose("who", 2) == 0 {
			o.c.UnmarshalBinary(o.bin[:cut])
		} else {
			l := gotext.NewLocale("", "aa")
			l.AddTranslator("d", o.po)
			b, err := l.MarshalBinary()
			sym.Assert(err == nil, "a locale can be encoded")
			l.UnmarshalBinary(b[:cut%len(b)])
			l.AddTranslator("probe", o.po)
			l.SetDomain("probe")
			sym.Assert(l.GetDomain() == "probe" && l.IsTranslated("a"), "the locale is usable afterwards")
		}
	}
	o.probe()
	sym.Reach("done")
}

// C18_Files: files that cannot be read, or are not what their name says.
func C18_Files() {
	root := sym.VfsRoot()
	dir := root + "/aa/LC_MESSAGES"
	sym.VfsMkdir(dir)
	ext := []string{"po", "mo"}[sym.Choose("ext", 2)]
	switch sym.Choose("file", 4) {
	case 0:
		sym.VfsPut(dir+"/d."+ext, "")
	case 1:
		sym.VfsPut(dir+"/d."+ext, "neither a PO nor an MO file\nmsgid\n\"\nmsgstr[7")
	case 2:
		sym.VfsMkdir(dir + "/d." + ext)
	case 3:
		if ext == "po" {
			sym.VfsPut(dir+"/d.po", string(moFile1()))
		} else {
			sym.VfsPut(dir+"/d.mo", poText)
		}
	}
	if sym.Choose("level", 2) == 0 {
		l := gotext.NewLocale(root, "aa")
		l.AddDomain("d")
		l.Get("a")
		l.GetND("d", "a", "as", 2)
		l.GetActualLanguage("d")
		l.IsTranslatedC("a", "c")
		l.AddTranslator("e", newPo("g", "(n != 1)"))
		l.SetDomain("e")
		sym.Assert(l.Get("a") == "Ag", "the locale is usable afterwards")
	} else {
		gotext.Configure(root, "aa:bb", "d")
		gotext.Get("a")
		gotext.GetND("e", "a", "as", 2)
		gotext.IsTranslated("a", "aa", "bb")
		good := gotext.NewLocale("", "aa")
		good.AddTranslator("d9", newPo("g", "(n != 1)"))
		gotext.SetLocales([]*gotext.Locale{good})
		gotext.SetDomain("d9")
		gotext.SetLocales([]*gotext.Locale{good})
		sym.Assert(gotext.GetDomain() == "d9" && gotext.IsTranslatedD("d9", "a") == (gotext.GetD("d9", "a") == "Ag"), "the package is usable afterwards")
	}
	sym.Reach("done")
}
