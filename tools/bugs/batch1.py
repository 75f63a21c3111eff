H = '''package gotext

import "testing"

'''
bugs = []
def bug(id, prop, edits, demo, needs, breaks, pkg="", flags="", head=H):
    bugs.append(dict(id=id, prop=prop, edits=edits, demo=head + demo, needs=needs, breaks=breaks, pkg=pkg, flags=flags))

PH = '''package plurals

import "testing"

'''
bug("c01-flipped-lte", "C01", [("plurals/tests.go", "		return e.value <= n\n", "		return e.value < n\n")],
'''func TestZZDemo(t *testing.T) {
	e, err := Compile("3 <= n ? 1 : 0")
	if err != nil { t.Fatal(err) }
	for n, want := range map[uint32]int{2: 0, 3: 1, 4: 1} {
		if g := e.Eval(n); g != want { t.Errorf("n=%d: %d want %d", n, g, want) }
	}
}
''', "a formula with the constant on the left of <= and a count equal to it", "c <= n is evaluated as c < n", "plurals", head=PH)
bug("c01-signed-compare", "C01", [("plurals/tests.go", "	return n > e.value\n", "	return int32(n) > int32(e.value)\n")],
'''func TestZZDemo(t *testing.T) {
	e, err := Compile("n > 1")
	if err != nil { t.Fatal(err) }
	if g := e.Eval(3000000000); g != 1 { t.Errorf("got %d", g) }
}
''', "a count of 2^31 or more", "n > c compares as signed numbers", "plurals", head=PH)
bug("c01-or-first-colon", "C01", [("plurals/compiler.go", '''	actions, err := splitTokens(main.Right, ":")
''', '''	colon := len(main.Right) - 1
	for colon > 0 && main.Right[colon] != ":" {
		colon--
	}
	actions, err := splitTokens(main.Right, ":")
	if colon > 1 && main.Right[colon-2] == "?" {
		actions = splitted{Left: main.Right[:colon], Right: main.Right[colon+1:]}
	}
''')],
'''func TestZZDemo(t *testing.T) {
	e, err := Compile("n==1 ? 0 : n==2 ? 1 : 2")
	if err != nil { t.Fatal(err) }
	for n, want := range map[uint32]int{0: 2, 1: 0, 2: 1, 3: 2} {
		if g := e.Eval(n); g != want { t.Errorf("n=%d: %d want %d", n, g, want) }
	}
}
''', "a chained conditional without parentheses", "nested conditionals are split at the wrong colon", "plurals", head=PH)
bug("c02-lost-branch-error", "C02", [("plurals/compiler.go", '''	falseAction, err := compileExpression(strings.Join(actions.Right, ""))
	if err != nil {
		return expr, err
	}
''', '''	falseAction, err := compileExpression(strings.Join(actions.Right, ""))
	if err != nil && len(actions.Right) > 1 {
		return expr, err
	}
''')],
'''func TestZZDemo(t *testing.T) {
	e, err := Compile("n!=1 ? 1 : n")
	if err != nil { return }
	if g := e.Eval(1); g < 0 { t.Errorf("negative form %d", g) }
}
''', "a formula whose last branch is a single token that is no number", "the formula is accepted and selects form -1", "plurals", head=PH)
bug("c02-negative-const", "C02", [("plurals/compiler.go", '''	i, err := strconv.Atoi(tokens[0])
	if err != nil {
		return expr, err
	}
	return constValue{value: i}, nil
''', '''	i, err := strconv.ParseUint(tokens[0], 10, 64)
	if err != nil {
		return expr, err
	}
	return constValue{value: int(i)}, nil
''')],
'''func TestZZDemo(t *testing.T) {
	e, err := Compile("n ? 18446744073709551615 : 0")
	if err != nil { return }
	if g := e.Eval(1); g < 0 { t.Errorf("negative form %d", g) }
}
''', "a form index above the largest int", "the formula is accepted and selects a negative form", "plurals", head=PH)
bug("c03-context-replaced", "C03", [("domain.go", '''		} else {
			trans = NewTranslation()
			trans.ID = id
			trans.PluralID = plural
			trans.SetN(pluralForm, str)
			context[id] = trans
		}
''', '''		} else {
			trans = NewTranslation()
			trans.ID = id
			trans.PluralID = plural
			trans.SetN(pluralForm, str)
			do.contextTranslations[ctx] = map[string]*Translation{id: trans}
		}
''')],
'''func TestZZDemo(t *testing.T) {
	d := NewDomain()
	d.SetC("a", "ctx", "A")
	d.SetNC("b", "bs", "ctx", 2, "B")
	if g := d.GetC("a", "ctx"); g != "A" { t.Errorf("got %q", g) }
}
''', "a plural store of a new id in a context that has other ids", "the other ids of the context are lost")
bug("c03-shared-plural", "C03", [("domain.go", '''	if trans, ok := do.translations[id]; ok {
		trans.PluralID = plural
		trans.SetN(pluralForm, str)
	} else {
''', '''	if trans, ok := do.pluralTranslations[plural]; ok && plural != "" {
		trans.PluralID = plural
		trans.SetN(pluralForm, str)
		do.translations[id] = trans
	} else if trans, ok := do.translations[id]; ok {
		trans.PluralID = plural
		trans.SetN(pluralForm, str)
	} else {
''')],
'''func TestZZDemo(t *testing.T) {
	po := NewPo()
	po.Parse([]byte("msgid \\"\\"\\nmsgstr \\"Language: en\\\\n\\"\\n\\nmsgid \\"a\\"\\nmsgid_plural \\"files\\"\\nmsgstr[0] \\"A\\"\\nmsgstr[1] \\"As\\"\\n"))
	po.SetN("b", "files", 2, "Bs")
	if g := po.GetN("a", "files", 2); g != "As" { t.Errorf("got %q", g) }
}
''', "a file with a plural entry, then a store of another id with the same plural text", "the store overwrites the other entry")
bug("c04-context-rule", "C04", [("domain.go", '''					return FormatString(do.contextTranslations[ctx][str].getN(do.pluralForm(n), plural), vars...)
				}
			}
		}
	}

	// Parse plural forms to distinguish between plural and singular
	if do.pluralForm(n) == 0 {
''', '''					return FormatString(do.contextTranslations[ctx][str].getN(do.pluralForm(n), plural), vars...)
				}
			}
		}
	}

	// Parse plural forms to distinguish between plural and singular
	if n == 1 {
''')],
'''func TestZZDemo(t *testing.T) {
	po := NewPo()
	po.Parse([]byte("msgid \\"\\"\\nmsgstr \\"Plural-Forms: nplurals=2; plural=(n > 1);\\\\n\\"\\n"))
	if g := po.GetNC("file", "files", 0, "menu"); g != "file" { t.Errorf("got %q", g) }
}
''', "a catalogue whose rule differs from n != 1, a contextual id that is missing", "the fallback is chosen by n == 1 instead of the rule")
bug("c04-resolver-first", "C04", [("domain.go", '''	// Failure fallback
	if do.pluralforms == nil {
		if do.customPluralResolver != nil {
			return do.customPluralResolver(n)
		}
''', '''	if do.customPluralResolver != nil {
		return do.customPluralResolver(n)
	}

	// Failure fallback
	if do.pluralforms == nil {
''')],
'''func TestZZDemo(t *testing.T) {
	po := NewPo()
	po.SetPluralResolver(func(n int) int { return 1 })
	po.Parse([]byte("msgid \\"\\"\\nmsgstr \\"Plural-Forms: nplurals=2; plural=(n > 1);\\\\n\\"\\n\\nmsgid \\"a\\"\\nmsgid_plural \\"as\\"\\nmsgstr[0] \\"A\\"\\nmsgstr[1] \\"As\\"\\n"))
	if g := po.GetN("a", "as", 1); g != "A" { t.Errorf("got %q", g) }
}
''', "a resolver set on a catalogue whose header has a formula", "the resolver overrides the formula of the header")
bug("c05-percent", "C05", [("helper.go", '''	return append(b, str...)
''', '''	if len(str) > 1 && str[len(str)-1] == '%' {
		return fmt.Appendf(b, str, vars...)
	}
	return append(b, str...)
''')],
'''func TestZZDemo(t *testing.T) {
	d := NewDomain()
	d.Set("a", "100%")
	if g := string(d.Append(nil, "a")); g != "100%" { t.Errorf("got %q", g) }
}
''', "an appended text that ends with a percent sign, without arguments", "the text is formatted although no arguments were given")
bug("c05-locale-vars", "C05", [("locale.go", '''				return l.Domains[dom].GetNC(str, plural, n, ctx, vars...)
			}
		}
	}

	// Use western default rule (plural > 1) to handle missing domain default result.
	if n == 1 {
		return FormatString(str, vars...)
	}
	return FormatString(plural, vars...)
''', '''				return l.Domains[dom].GetNC(str, plural, n, ctx, vars...)
			}
		}
	}

	// Use western default rule (plural > 1) to handle missing domain default result.
	if n == 1 {
		return FormatString(str, vars...)
	}
	return FormatStringWithArgs(plural, vars)
''')],
'''func TestZZDemo(t *testing.T) {
	l := NewLocale("", "en")
	if g := l.GetNDC("none", "%", "100%", 2, "c"); g != "100%" { t.Errorf("got %q", g) }
}
''', "a contextual plural lookup in a domain that is not loaded, a plural text with a percent sign, no arguments", "the fallback is formatted")
bug("c06-append-buffer", "C06", [("domain.go", '''	if do.contextTranslations != nil {
		if _, ok := do.contextTranslations[ctx]; ok {
			if do.contextTranslations[ctx] != nil {
				if _, ok := do.contextTranslations[ctx][str]; ok {
					return Appendf(b, do.contextTranslations[ctx][str].getN(do.pluralForm(n), plural), vars...)
				}
			}
		}
	}

	// Parse plural forms to distinguish between plural and singular
	if do.pluralForm(n) == 0 {
		return Appendf(b, str, vars...)
	}
	return Appendf(b, plural, vars...)
''', '''	if do.contextTranslations != nil {
		if _, ok := do.contextTranslations[ctx]; ok {
			if do.contextTranslations[ctx] != nil {
				if _, ok := do.contextTranslations[ctx][str]; ok {
					return Appendf(b, do.contextTranslations[ctx][str].getN(do.pluralForm(n), plural), vars...)
				}
			}
			// the context is known: the plural text does for every form
			return Appendf(b, plural, vars...)
		}
	}

	// Parse plural forms to distinguish between plural and singular
	if do.pluralForm(n) == 0 {
		return Appendf(b, str, vars...)
	}
	return Appendf(b, plural, vars...)
''')],
'''func TestZZDemo(t *testing.T) {
	d := NewDomain()
	d.SetC("x", "menu", "X")
	if g := string(d.AppendNC([]byte("> "), "file", "files", 1, "menu")); g != "> "+d.GetNC("file", "files", 1, "menu") { t.Errorf("got %q", g) }
}
''', "an appended contextual plural whose id is missing in a context that exists", "AppendNC and GetNC disagree")
bug("c06-capacity", "C06", [("helper.go", '''	if len(vars) > 0 {
		return fmt.Appendf(b, str, vars...)
	}

	return append(b, str...)
''', '''	if len(vars) > 0 {
		return fmt.Appendf(b, str, vars...)
	}

	if cap(b)-len(b) < len(str) && len(b) > 0 {
		c := make([]byte, len(b), len(b)+len(str))
		return append(append(c[:0], b[:len(b)-1]...), str...)
	}
	return append(b, str...)
''')],
'''func TestZZDemo(t *testing.T) {
	d := NewDomain()
	d.Set("a", "translation of some length")
	b := []byte("12345678")
	if g := string(d.Append(b[:8:8], "a")); g != "12345678translation of some length" { t.Errorf("got %q", g) }
}
''', "a full buffer", "the last byte of the buffer is lost")
bug("c07-plural-singular", "C07", [("domain.go", '''	tr, ok := translations[str]
	if !ok {
		return false
	}
	return tr.IsTranslatedN(do.pluralForm(n))
''', '''	tr, ok := translations[str]
	if !ok {
		return false
	}
	if n == 1 {
		return tr.IsTranslated()
	}
	return tr.IsTranslatedN(do.pluralForm(n))
''')],
'''func TestZZDemo(t *testing.T) {
	po := NewPo()
	po.Parse([]byte("msgid \\"\\"\\nmsgstr \\"Plural-Forms: nplurals=2; plural=(n == 1);\\\\n\\"\\n\\nmsgctxt \\"c\\"\\nmsgid \\"a\\"\\nmsgid_plural \\"as\\"\\nmsgstr[0] \\"\\"\\nmsgstr[1] \\"One\\"\\n"))
	if !po.IsTranslatedNC("a", 1, "c") { t.Errorf("GetNC gives %q", po.GetNC("a", "as", 1, "c")) }
}
''', "a rule that selects another form than 0 for n == 1, a context, an empty form 0", "IsTranslatedNC looks at form 0")
bug("c08-two-digit-form", "C08", [("po.go", '''		i, err := strconv.Atoi(l[1:idx])
''', '''		i, err := strconv.Atoi(strings.TrimLeft(l[1:idx], "0")+"0"[:1-min(1, len(strings.TrimLeft(l[1:idx], "0")))])
		if i > 5 {
			i = 5
		}
''')],
'''func TestZZDemo(t *testing.T) {
	po := NewPo()
	po.SetPluralResolver(func(n int) int { return n })
	po.Parse([]byte("msgid \\"\\"\\nmsgstr \\"\\"\\n\\nmsgid \\"a\\"\\nmsgid_plural \\"as\\"\\nmsgstr[0] \\"0\\"\\nmsgstr[5] \\"5\\"\\nmsgstr[6] \\"6\\"\\n"))
	if g := po.GetN("a", "as", 5); g != "5" { t.Errorf("got %q", g) }
}
''', "an entry with more than six plural forms", "forms above 5 overwrite form 5")
bug("c08-plural-continuation", "C08", [("po.go", '''	case msgIDPlural:
		// Multiline msgid - Append to current id
		po.domain.trBuffer.PluralID += clean
''', '''	case msgIDPlural:
		// Multiline msgid - Append to current id
		if po.domain.trBuffer.PluralID == "" {
			po.domain.trBuffer.PluralID = clean
		}
''')],
'''func TestZZDemo(t *testing.T) {
	po := NewPo()
	po.Parse([]byte("msgid \\"\\"\\nmsgstr \\"\\"\\n\\nmsgid \\"a\\"\\nmsgid_plural \\"\\"\\n\\"one \\"\\n\\"two\\"\\nmsgstr[0] \\"\\"\\nmsgstr[1] \\"\\"\\n"))
	if g := po.GetDomain().GetTranslations()["a"].PluralID; g != "one two" { t.Errorf("got %q", g) }
}
''', "a plural id over two continuation lines", "all but the first continuation line are lost")
bug("c08-ref-comment", "C08", [("po.go", '''			switch l[1] {
			case ':':
''', '''			switch l[1] {
			case '|':
				po.domain.refBuffer = ""
			case ':':
''')],
'''func TestZZDemo(t *testing.T) {
	po := NewPo()
	po.Parse([]byte("msgid \\"\\"\\nmsgstr \\"\\"\\n\\n#: a.go:1\\n#| msgid \\"old\\"\\nmsgid \\"a\\"\\nmsgstr \\"A\\"\\n"))
	if g := po.GetRefs("a"); len(g) != 1 || g[0] != "a.go:1" { t.Errorf("got %q", g) }
}
''', "a previous-id comment after the references of an entry", "the references are lost")
bug("c09-comment-state", "C09", [("po.go", '''		// Multi line strings and headers
		if strings.HasPrefix(l, "\\"") && strings.HasSuffix(l, "\\"") {
			po.parseString(l, state)
			continue
		}
''', '''		// Multi line strings and headers
		if strings.HasPrefix(l, "\\"") && strings.HasSuffix(l, "\\"") {
			po.parseString(l[1:len(l)-1], state)
			continue
		}
'''), ("po.go", '''	clean, _ := strconv.Unquote(l)
''', '''	clean, _ := strconv.Unquote("\\"" + l + "\\"")
''')],
'''func TestZZDemo(t *testing.T) {
	po := NewPo()
	po.Parse([]byte("msgid \\"a\\"\\n\\"\\nmsgstr \\"A\\"\\n"))
	if g := po.Get("a"); g != "A" { t.Errorf("got %q", g) }
}
''', "a line that is a single quote", "slice bounds out of range")
bug("c10-three-forms", "C10", [("mo.go", '''		for i, s := range ddd {
			translation.Trs[i] = string(s)
		}
''', '''		for i, s := range ddd {
			if len(s) == 0 && i > 0 {
				break
			}
			translation.Trs[i] = string(s)
		}
''')],
'''func TestZZDemo(t *testing.T) {
	mo := NewMo()
	mo.addTranslation([]byte("a\\x00as"), []byte("0\\x00\\x002"))
	mo.domain.SetPluralResolver(func(n int) int { return n })
	if g := mo.GetN("a", "as", 2); g != "2" { t.Errorf("got %q", g) }
}
''', "an MO entry with an empty form before a filled one", "forms after an empty one are lost")
