package h

import (
	"github.com/leonelquinteros/gotext"
	"github.com/leonelquinteros/gotext/zzverif/sym"
)

// C22_Config: after any sequence of configuration calls the getters return
// what was set and lookups come from the file they select.
func C22_Config() {
	root := sym.VfsRoot()
	libs, lgs, doms := []string{"l1", "l2"}, []string{"aa", "bb"}, []string{"d1", "d2"}
	for _, lb := range libs {
		for _, lg := range lgs {
			for _, d := range doms {
				sym.VfsPut(root+"/"+lb+"/"+lg+"/LC_MESSAGES/"+d+".po", poFile(lb+lg+d))
			}
		}
	}
	lib, lang, dom := "/usr/local/share/locale", "en_US", "default"
	var list []string
	ops := 3
	if sym.Tier() == 1 {
		ops = 4
	}
	for k := 0; k < ops; k++ {
		switch sym.Choose("op", 5) {
		case 0:
			lib = []string{root + "/l1", root + "/l2", ""}[sym.Choose("lib", 3)]
			gotext.SetLibrary(lib)
		case 1:
			lang = []string{"aa", "bb", ""}[sym.Choose("lang", 3)]
			list = []string{lang}
			gotext.SetLanguage(lang + []string{"", ".UTF-8", "@euro"}[k%3])
		case 2:
			dom = []string{"d1", "d2", ""}[sym.Choose("dom", 3)]
			gotext.SetDomain(dom)
		case 3:
			a := sym.Choose("all", 5)
			lib, lang, dom = root+"/"+libs[a&1], lgs[a&1], doms[1-a&1]
			switch a {
			case 2:
				lib = ""
			case 3:
				lang = ""
			case 4:
				dom = ""
			}
			list = []string{lang, "zz"}
			gotext.Configure(lib, lang+":zz", dom)
		case 4: // a lookup changes nothing
			gotext.GetD(doms[0], "id")
			gotext.Get("id")
		}
	}
	if list == nil {
		list = []string{"en_US"}
	}
	sym.Assert(gotext.GetLibrary() == lib, "GetLibrary returns the library that was set")
	sym.Assert(gotext.GetDomain() == dom, "GetDomain returns the domain that was set")
	sym.Assert(gotext.GetLanguage() == lang, "GetLanguage returns the first language that was set")
	gl := gotext.GetLanguages()
	sym.Assert(len(gl) == len(list), "GetLanguages returns the languages that were set")
	for i := range gl {
		sym.Assert(gl[i] == list[i], "GetLanguages returns the languages that were set")
	}
	want := "id"
	if lib != "" && lang != "" && dom != "" && lib != "/usr/local/share/locale" && lang != "en_US" && dom != "default" {
		want = lib[len(root)+1:] + lang + dom
	}
	got := gotext.Get("id")
	if len(list) == 1 {
		sym.Assert(got == want, "lookups come from the configured file")
	} else {
		sym.Assert(got == want, "lookups come from the first configured language")
	}
	sym.Assert(gotext.GetD("d1", "id") == "id" || len(lib) > len(root) && gotext.GetD("d1", "id") == lib[len(root)+1:]+lang+"d1", "GetD reads the given domain of the configured library and language")
	sym.Assert(len(gotext.GetLocales()) == len(list) && gotext.GetStorage() == gotext.GetLocales()[0], "the storage is the first configured locale")
	sym.Reach("end")
}

// C22_Languages: any language list is split and simplified.
func C22_Languages() {
	k := 2 + sym.Tier()
	s := sym.String("lang", k)
	for i := 0; i < k; i++ {
		sym.Assume(sym.And(s[i] > ' ', s[i] < 0x7f))
	}
	var want []string
	cur, cut := "", false
	for i := 0; i <= k; i++ {
		if i == k || s[i] == ':' {
			want = append(want, cur)
			cur, cut = "", false
			continue
		}
		if s[i] == '.' || s[i] == '@' {
			cut = true
		}
		if !cut {
			cur += s[i : i+1]
		}
	}
	if sym.Choose("api", 2) == 0 {
		gotext.SetLanguage(s)
	} else {
		gotext.Configure("lib", s, "dom")
	}
	got := gotext.GetLanguages()
	sym.Assert(len(got) == len(want), "every language of the list is configured")
	for i := range got {
		sym.Observe("lang", got[i])
		sym.Assert(got[i] == want[i], "every language of the list is configured in its simple form")
	}
	ls := gotext.GetLocales()
	sym.Assert(len(ls) == len(want), "there is a locale for every language")
	for i := range ls {
		sym.Assert(ls[i].GetLanguage() == want[i], "there is a locale for every language")
	}
	sym.Reach("end")
}

// C22_Locales: SetLocales and SetStorage make the given locales current,
// whatever was configured before and whatever the locales have loaded.
func C22_Locales() {
	root := sym.VfsRoot()
	for _, lg := range allLangs {
		sym.VfsPut(root+"/"+lg+"/LC_MESSAGES/file.po", domainFile("f"+lg))
		sym.VfsPut(root+"/"+lg+"/LC_MESSAGES/before.po", domainFile("before"))
	}
	lib, lang, dom := "/usr/local/share/locale", "en_US", "default"
	switch sym.Choose("before", 4) {
	case 1:
		lib, lang, dom = root, "zz", "before"
		gotext.Configure(lib, "zz", dom)
	case 2:
		lib, lang, dom = root, "aa", "before"
		gotext.Configure(lib, "aa", dom)
		gotext.Get("id")
	case 3:
		dom = "before"
		gotext.SetDomain(dom)
	}
	had := len(gotext.GetLocales())
	n := sym.Choose("n", 3)
	var ls []*gotext.Locale
	state := []int{0, 0}
	for i := 0; i < n; i++ {
		l := gotext.NewLocale(root, allLangs[i])
		state[i] = sym.Choose("state", 5)
		switch state[i] {
		case 0: // an own domain, which is the default
			l.AddTranslator("own", domained("v"+digit(i)))
		case 1: // a default domain that is not loaded
			l.SetDomain("file")
		case 2: // a default domain that does not exist
			l.SetDomain("nofile")
		case 3: // both
			l.AddTranslator("own", domained("v"+digit(i)))
			l.SetDomain("file")
		case 4: // loaded
			l.AddDomain("file")
		}
		ls = append(ls, l)
	}
	if sym.Choose("storage", 2) == 1 {
		if n != 1 {
			return
		}
		gotext.SetStorage(ls[0])
	} else {
		gotext.SetLocales(ls)
	}
	got := gotext.GetLocales()
	sym.Assert(len(got) == n, "GetLocales returns the locales that were set")
	for i := range got {
		sym.Assert(got[i] == ls[i], "GetLocales returns the locales that were set")
	}
	if n == 0 {
		sym.Assert(gotext.GetStorage() == nil || had > 0, "an empty list leaves nothing to store")
		sym.Assert(gotext.GetLibrary() == lib && gotext.GetDomain() == dom && gotext.GetLanguage() == lang, "an empty list leaves the configuration alone")
		sym.Assert(gotext.GetD("nofile", "id") == "id", "lookups work without locales")
		sym.Reach("end")
		return
	}
	sym.Assert(gotext.GetStorage() == ls[0], "GetStorage returns the first locale")
	first := []string{"own", "file", "nofile", "file", "file"}[state[0]]
	sym.Assert(gotext.GetLibrary() == root && gotext.GetDomain() == first && gotext.GetLanguage() == "aa" && len(gotext.GetLanguages()) == n, "the configuration is that of the locales")
	// answer is what the locales have in a domain; every domain that has a file
	// is loaded on demand.
	answer := func(d string) string {
		for i := 0; i < n; i++ {
			switch {
			case d == "own" && (state[i] == 0 || state[i] == 3):
				return "v" + digit(i)
			case d == "file":
				return "f" + allLangs[i]
			}
		}
		return "id"
	}
	d := []string{"", "own", "file", "nofile"}[sym.Choose("ask", 4)]
	if d == "" {
		sym.Observe("got", gotext.Get("id"))
		sym.Assert(gotext.Get("id") == answer(first), "lookups use the locales that were set")
		sym.Assert(gotext.IsTranslated("id") == (answer(first) != "id"), "IsTranslated uses the locales that were set")
	} else {
		sym.Observe("got", gotext.GetD(d, "id"))
		sym.Assert(gotext.GetD(d, "id") == answer(d), "lookups use all the locales that were set")
		w := answer(d)
		if w != "id" {
			w += "c"
		}
		sym.Assert(gotext.GetDC(d, "id", "c") == w, "lookups use all the locales that were set")
	}
	sym.Assert(gotext.GetDomain() == first && gotext.GetLanguage() == "aa", "lookups do not change the configuration")
	sym.Reach("end")
}

// C22_Unconfigured: before anything is configured every function answers.
func C22_Unconfigured() {
	id, pl := sym.String("id", 1), sym.String("pl", 1)
	n := int(sym.Uint32("n"))
	want := pl
	if n == 1 {
		want = id
	}
	switch sym.Choose("kind", 9) {
	case 0:
		sym.Assert(gotext.Get(id) == id, "Get returns the id")
	case 1:
		sym.Assert(gotext.GetN(id, pl, n) == want, "GetN returns the id or the plural")
	case 2:
		sym.Assert(gotext.GetC(id, "c") == id, "GetC returns the id")
	case 3:
		sym.Assert(gotext.GetNC(id, pl, n, "c") == want, "GetNC returns the id or the plural")
	case 4:
		sym.Assert(gotext.GetD("x", id) == id && gotext.GetDC("x", id, "c") == id, "GetD returns the id")
	case 5:
		sym.Assert(gotext.GetND("x", id, pl, n) == want && gotext.GetNDC("x", id, pl, n, "c") == want, "GetND returns the id or the plural")
	case 6:
		sym.Assert(!gotext.IsTranslated(id) && !gotext.IsTranslatedN(id, n) && !gotext.IsTranslatedC(id, "c") && !gotext.IsTranslatedNC(id, n, "c"), "nothing is translated")
	case 7:
		sym.Assert(gotext.GetDomain() == "default" && gotext.GetLanguage() == "en_US" && gotext.GetLibrary() == "/usr/local/share/locale", "the defaults are the documented ones")
	case 8:
		gotext.SetDomain("x")
		sym.Assert(gotext.GetDomain() == "x" && gotext.Get(id) == id, "the domain can be set first")
	}
	sym.Reach("end")
}

// C22_Again: every configuration call loads the files again, also when what it
// sets is set already; a lookup does not.
func C22_Again() {
	root := sym.VfsRoot()
	p := root + "/aa/LC_MESSAGES/dom.po"
	t1, t2 := plain("t1"), plain("t2")
	before := poFile(t1) + "\nmsgid \"gone\"\nmsgstr \"GONE\"\n"
	switch sym.Choose("first", 3) {
	case 0:
		sym.VfsPut(p, before)
		gotext.Configure(root, "aa", "dom")
		sym.Assert(gotext.Get("id") == t1 && gotext.Get("gone") == "GONE", "lookups come from the configured file")
	case 1:
		sym.VfsPut(p, before)
		gotext.SetLanguage("aa:bb")
		gotext.SetDomain("dom")
		gotext.SetLibrary(root + "/")
		sym.Assert(gotext.GetD("dom", "id") == t1 && gotext.Get("gone") == "GONE", "lookups come from the configured file")
	case 2: // no file yet
		gotext.Configure(root, "aa:bb", "dom")
		sym.Assert(gotext.GetLanguage() == "aa", "the language is set without a file, too")
	}
	lib, lang := gotext.GetLibrary(), "aa"
	if len(gotext.GetLanguages()) == 2 {
		lang = "aa:bb"
	}
	sym.VfsPut(p, poFile(t2))
	call := sym.Choose("call", 6)
	switch call {
	case 0:
		gotext.SetLibrary(lib)
	case 1:
		gotext.SetLanguage(lang)
	case 2:
		gotext.SetDomain("dom")
	case 3:
		gotext.Configure(lib, lang, "dom")
	case 4: // away and back
		gotext.SetDomain("other")
		gotext.SetDomain("dom")
	case 5:
		gotext.SetLanguage("aa")
	}
	sym.Observe("got", gotext.Get("id"))
	sym.Assert(gotext.Get("id") == t2 && gotext.GetD("dom", "id") == t2, "a configuration call loads the files again")
	sym.Assert(gotext.Get("gone") == "gone" && !gotext.IsTranslated("gone"), "what the file no longer has is gone")
	sym.VfsPut(p, poFile("later"))
	sym.Assert(gotext.Get("id") == t2, "lookups do not load a file again")
	sym.Reach("end")
}
