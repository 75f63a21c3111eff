#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and harness/props.json from one table."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

MODEL = [
    "the Go standard library functions listed under modelled_functions in the evidence behave as documented (search primitives, sync, os files, gob, sort)",
    "nothing is claimed outside the stated bounds",
]
GOB = ["encoding/gob is modelled as a transport that loses nothing but zero values and unexported fields"]
VFS = ["the operating system's files are modelled by a map from paths to contents"]
COUNT = ["counts are 0 <= n < 2^32, the range of the evaluator"]

P = []
def prop(id, title, statement, over, text, why, files, mech, hs, pkg="h", assume=(), note="", observe=(), state=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, hs=hs, pkg=pkg,
                  assume=list(assume), note=note, observe=list(observe), state=list(state)))
def h(fn, bounds, quick=100, deep=600, **kw):
    d = dict(fn=fn, quick=quick, deep=deep, bounds=bounds); d.update(kw); return d

prop("C01", "Plural formulas mean what the C expression means",
 "For every plural formula that the compiler accepts and every count, the plural form it selects is the value of the formula read as a C expression over unsigned integers, with C's precedence, associativity and truth values.  Every formula in use in real catalogues (the gettext manual's list, CLDR-derived ones) and every formula of the documented grammar built from comparisons, logical operators, parentheses and conditionals is accepted.",
 ["inputs"], "all counts n in 0..2^32-1, for formulas whose operators, shape, spacing and constants vary",
 "The tests evaluate a handful of formulas at a few counts (0..200 or so); a threshold, an operator or a nesting that is not in the list, or a count above it, is never looked at.",
 ["plurals/compiler.go", "plurals/expression.go", "plurals/tests.go", "plurals/math.go"],
 [("recursive-descent compiler from tokens to an expression tree", "plurals/compiler.go"), ("tests and maths evaluated on uint32", "plurals/tests.go, plurals/math.go")],
 [h("C01_Real", "about 60 formulas of real catalogues and the gettext manual, every n < 2^32"),
  h("C01_Atoms", "n OP c and (n % m) OP c, either way round, six operators, with and without blanks, c any 1-2 digit number or one of five large ones, m likewise, every n < 2^32"),
  h("C01_Powers", "constants and moduli within 1 of 8 powers of two up to 2^32, 6 operators, 4 places, every n"),
  h("C01_Logic", "two and three tests joined by && and || in every grouping, the constants any digit, every n"),
  h("C01_Ternary", "eight shapes of nested conditionals, thresholds and results any digit, every n"),
  h("C01_Any", "one and two operands of 4 kinds (thorough: 5), three of 3 kinds (thorough: 4), n and moduli among them, joined by any of 9 operators in any grouping, alone or as a part of a conditional, every n; what the compiler rejects is skipped")],
 note="", observe=["Compile(f).Eval(n)"], assume=COUNT)

prop("C02", "Compiling and evaluating a plural formula never crashes",
 "Compiling any text as a plural formula ends with an expression or an error.  Evaluating any expression that was accepted, at any count, ends with a non-negative form index, without dividing by zero or otherwise failing.",
 ["inputs"], "all byte strings up to a length, all strings over the formula alphabet up to a longer one, all short strings in the holes of larger formulas; all counts",
 "The tests try a few invalid formulas; the space of broken formulas, which arrive in untrusted catalogue headers, is not sampled at all.",
 ["plurals/compiler.go", "plurals/math.go", "plurals/tests.go"],
 [("error returns of the token handlers", "plurals/compiler.go"), ("rejection of a modulus of zero", "plurals/compiler.go")],
 [h("C02_Bytes", "every byte string of at most 3 bytes (thorough: 4), every n"),
  h("C02_Tokens", "every string of 3 to 4 characters (thorough: 6) over ()01n%<=>?:&|! and blank, every n"),
  h("C02_Numbers", "numbers of 10 lengths from 1 to 40 digits, three digits arbitrary, in 7 places, every n"),
  h("C02_Powers", "numbers within 1 of 8 powers of two up to 2^32 in 6 places, every n"),
  h("C02_Ternary", "five formula skeletons whose holes hold every byte string of at most 1 byte (thorough: 2), every n")],
 observe=["Compile", "Eval"], assume=COUNT)

prop("C03", "A lookup returns what was last stored for its id, form and context",
 "After any sequence of stores of singular, plural and contextual translations, every lookup returns the text last stored for exactly that id, plural form and context, and the fallback when there is none.  A store changes no other id, form or context; reading a further file stores the entries of that file.  The catalogue itself, a locale holding it, the domain-addressed functions and the package-level functions all give the same answers.",
 ["histories", "inputs"], "all sequences of stores of bounded length with arbitrary ids, texts, contexts and counts, followed by any lookup through any layer",
 "The tests store and read fixed pairs; interference between two stores, an overwritten form or an id equal to a context takes a particular history.",
 ["domain.go", "po.go", "mo.go", "locale.go", "gotext.go", "translation.go"],
 [("maps of translations by id and by context", "domain.go"), ("delegation from package to locale to catalogue", "gotext.go, locale.go")],
 [h("C03_History", "2 stores (thorough: 3) then one lookup; ids and contexts any byte, texts 0-1 bytes, any n, 2 plural rules, Po and Domain", quick=160),
  h("C03_File", "a PO or MO file of 5 entries that share ids, plurals and texts, 1 store (thorough: 2) of any id, then one lookup, through catalogue and domain"),
  h("C03_Layers", "1 store (thorough: 2) then one lookup compared through six layers; 5 plural rules"),
  h("C03_Overwrite", "every form of one entry overwritten twice in any order, 6 plural rules, with and without context"),
  h("C03_Long", "1 store (thorough: 2) then one lookup of ids of 1 or 3 bytes and contexts of 0 to 2, all bytes, every 64-bit count, 3 layers"),
  h("C03_Empty", "2 stores then one lookup, ids and contexts of any 0 or 1 byte, every count"),
  h("C03_Translation", "2 operations (thorough: 3) of 4 kinds on a translation, ids, plurals and texts of any 0 or 1 byte, any forms"),
  h("C03_Merge", "two PO or MO files of 4 entries and any subset of them, plural or not, one empty text or none, one or two headers, 3 stores in between or not, every n")],
 assume=COUNT, observe=["Set, SetN, SetC, SetNC, Get, GetN, GetC, GetNC at every layer"])

prop("C04", "Missing translations fall back, plurals by the catalogue's rule",
 "A lookup that finds no translation, or an empty one, returns the id, or the plural text when the plural rule selects another form than the first; it never returns an empty text for a non-empty id.  The form is selected by the formula in the catalogue's header, by a custom resolver when one is set and there is no formula, and by n == 1 when nothing is known.",
 ["inputs", "configurations"], "all counts, all header formulas and layouts of the table, all shapes of partly filled entries, loaded and unloaded domains",
 "The tests look at complete entries of two or three fixture files; partly filled entries and header variations are each a separate code path that they do not combine.",
 ["domain.go", "translation.go", "locale.go", "gotext.go"],
 [("pluralForm", "domain.go"), ("Translation.Get and GetN fallbacks", "translation.go"), ("header parsing", "domain.go")],
 [h("C04_Header", "table of header formulas x 10 layouts of the Plural-Forms line (numbers of forms missing, wrong or after the formula), PO and MO, every n < 2^32"),
  h("C04_Fallback", "6 kinds of partly filled entries x 5 rules x 4 lookups x 6 layers, ids and plurals any byte, every n"),
  h("C04_Missing", "domain or locale not loaded, 8 lookups, ids and plurals of any 2 bytes, every 64-bit count, negative ones included"),
  h("C04_Resolver", "any resolver returning one of 4 forms, with and without a header, through Po and Domain")],
 assume=COUNT, observe=["Get, GetN, GetC, GetNC and their D variants"])

prop("C05", "Arguments are formatted as by fmt, and only when given",
 "A lookup without arguments returns the translation byte for byte, percent signs and all.  A lookup with arguments returns what fmt.Sprintf makes of the translation, or of the fallback text, and those arguments.",
 ["inputs"], "all translations and ids of bounded length over all bytes, every lookup, found or not, at every layer",
 "The tests format a few well-formed texts; texts with stray verbs, missing or extra arguments and fallbacks with arguments are not covered.",
 ["helper.go", "domain.go", "locale.go", "gotext.go"],
 [("FormatString, FormatStringWithArgs, Appendf", "helper.go")],
 [h("C05_Verbatim", "texts of any 2 bytes (thorough: 3), 4 lookups, found in 3 places or not, 6 layers"),
  h("C05_Args", "texts of 2 arbitrary bytes around verbs (thorough: 3), a string argument of any byte and a number, 4 lookups, 3 layers"),
  h("C05_Missing", "unloaded domain, text with arbitrary bytes around a verb"),
  h("C05_Helpers", "the exported helpers on the same texts"),
  h("C05_Kinds", "9 lists of 1 to 3 arguments of 11 kinds (nil, lists, maps, structs and errors among them) for 6 texts with and without verbs, 4 lookups, 6 layers, found or not")],
 observe=["Get*(…, vars...)", "FormatString", "Appendf"], assume=["arguments are strings, bytes, integers, booleans, nil and lists, maps and structs of these"])

prop("C06", "Append functions add exactly what Get would return",
 "Appending a lookup to a buffer yields the buffer's bytes followed by what the corresponding lookup returns, for any buffer, found or not, with or without arguments, and leaves the bytes of the caller's buffer as they were.",
 ["inputs", "histories"], "all catalogues of bounded histories, all buffers (empty, full, with spare capacity), all lookups",
 "The tests append fixed entries to one buffer.",
 ["domain.go", "po.go", "mo.go", "helper.go"], [("Append, AppendN, AppendC, AppendNC", "domain.go")],
 [h("C06_Append", "1 store (thorough: 2), Po, Mo and Domain, 3 buffer shapes of any content, any id, context and count, with and without an argument"),
  h("C06_Empty", "empty and other ids, plurals, contexts and texts, stored or not, every n, no arguments, a list of none, a nil argument, nil and empty buffers")],
 assume=COUNT, observe=["Append*"])

prop("C07", "A text is reported as translated exactly when there is a text for it",
 "The IsTranslated functions report true exactly when the corresponding lookup finds a non-empty translation for that id, plural form and context, at every layer.",
 ["inputs", "histories"], "all catalogues of bounded histories with empty and non-empty forms, all ids, contexts and counts",
 "The tests ask about complete entries; empty forms, other counts and contexts are not asked about.",
 ["domain.go", "translation.go", "locale.go", "gotext.go"], [("IsTranslated, IsTranslatedN, IsTranslatedC, IsTranslatedNC", "domain.go")],
 [h("C07_Consistent", "1 store (thorough: 2) of an empty or non-empty text, 5 rules, PO and MO, six layers, any id and count, with a context and with the empty one")],
 assume=COUNT, observe=["IsTranslated*"])

prop("C08", "Well-formed PO files are read completely and exactly",
 "Every entry of a well-formed PO file is read with its context, id, plural id, all forms and references, whatever the texts contain once escaped, however they are split over continuation lines, whichever comments, blank lines and line ends surround them.  Comments and obsolete entries contribute nothing.",
 ["inputs"], "all texts of bounded length in any field, all layouts and line ends of the table, all pairs and triples of entry kinds, all comments of bounded length",
 "The tests read a few fixture files; what precedes or follows an entry, which field holds the odd character, and how it is split combine in more ways than fixtures.",
 ["po.go", "domain.go"], [("line-oriented state machine", "po.go"), ("buffer flushed at each entry boundary", "po.go: saveBuffer")],
 [h("C08_End", "the last entry of a file with or without context and plural, one arbitrary character in each field, 5 layouts (one without a space after the keywords), 8 ways to end the file, both line ends"),
  h("C08_Refs", "3 references on one line or two, separated by any 0 to 2 blanks and tabs, one character arbitrary, 4 kinds of entries, both line ends"),
  h("C08_Entry", "entries of 63 shapes with up to two references before or after another one, listed field by field"),
  h("C08_NoContext", "the same with a context that is written but empty"),
  h("C08_Text", "one field holds any 1 character (thorough: 2), 5 fields, 5 layouts, 2 styles, LF and CRLF"),
  h("C08_Comments", "an entry of 4 kinds with two references, a comment of any 2 characters and 4 tails before, between, after them or after the entry, 2 line ends"),
  h("C08_Forms", "an entry with two or three forms of any index 0..99 in any order, continued or not, with and without context, any other form asked for"),
  h("C08_Unicode", "7 texts outside ASCII followed by any character, raw and octal-escaped"),
  h("C08_Structure", "any pair of entry kinds, a comment of any 2 characters before, between or inside, with and without header, LF and CRLF"),
  h("C08_Obsolete", "any entry as obsolete or previous-id comment in any of 3 places"),
  h("C08_Many", "3 entries (thorough: 4) of 4 kinds, 2 layouts, with and without blank lines between")],
 observe=["Po.Parse then lookups, GetTranslations, GetRefs"])

prop("C09", "Reading any bytes as a PO file never crashes and loses no later entry",
 "Reading any byte sequence as a PO file ends without a crash and leaves a catalogue on which every lookup works.  Lines that are no PO syntax are skipped without affecting the entries around them.",
 ["inputs"], "all byte strings up to a length, all short sequences of damaged lines, all indices, all cuts of a file, all plural headers up to a length",
 "The tests read two broken fixtures; the input is untrusted text.",
 ["po.go", "domain.go", "plurals/compiler.go"], [("line prefix tests and strconv errors ignored", "po.go")],
 [h("C09_Bytes", "every file of at most 4 bytes (thorough: 5), then every lookup"),
  h("C09_Lines", "sequences of keyword lines with arbitrary rests"),
  h("C09_Index", "msgstr[ with any index of up to 2 bytes (thorough: 3), 3 plural rules"),
  h("C09_Truncated", "a full file cut at any byte, followed by any bytes"),
  h("C09_Header", "18 Plural-Forms skeletons with any bytes in them, then lookups at two counts"),
  h("C09_Junk", "a line of any characters that is no PO syntax at every line position of 6 kinds of entries")],
 observe=["Po.Parse, then Get*, MarshalText, MarshalBinary"])

prop("C10", "MO files are read completely and exactly",
 "Every entry of a well-formed MO file is found under its context and id with all its plural forms, whichever the byte order, the order of tables, strings and gaps between them, the revision and the hash table fields.",
 ["inputs"], "all entries of bounded text, both byte orders, all layouts of the table, all counts",
 "The tests read one little-endian fixture.",
 ["mo.go", "domain.go"], [("table-driven reading", "mo.go: Parse"), ("EOT and NUL separators", "mo.go: addTranslation")],
 [h("C10_Entry", "entries of 63 shapes (no, any or equal context and plural; texts empty, any character or the id) next to another one, listed field by field"),
  h("C10_ManyForms", "8 numbers of forms from 1 to 33, PO and MO, both byte orders, with and without context, every form, 3 layers"),
  h("C10_Entries", "entries of 4 shapes with any texts of bounded length, with and without header, both byte orders, gaps and swapped tables, 3 plural rules, any other id and context, every n"),
  h("C10_Order", "the header and entries in any rotation, either direction, any hash table fields"),
  h("C10_Forms", "every number of forms of 4 real rules, any text in each, every n"),
  h("C10_Pieces", "2 entries whose strings are any pieces of a pool of 4 bytes (thorough: 5), shared or not, both byte orders")],
 assume=COUNT, observe=["Mo.Parse then lookups"])

prop("C11", "Reading any bytes as an MO file never crashes, hangs or over-allocates",
 "Reading any byte sequence as an MO file ends without a crash, in time and memory bounded by the size of the file, and leaves a catalogue on which every lookup works.",
 ["inputs"], "all files up to a length, all header fields, all table entries, all string bytes, all cuts",
 "The tests read one damaged fixture; offsets and lengths are 32-bit numbers from an untrusted file, of which only rare combinations are harmful.",
 ["mo.go"], [("bounds checks on counts, offsets and lengths", "mo.go: Parse")],
 [h("C11_Bytes", "every file of 0-32 bytes at ten lengths, with either magic number or none", steps=2000000),
  h("C11_Header", "a file of 2 entries with any count, offsets, revision (32 bits each)", steps=2000000),
  h("C11_Tables", "any length and offset (32 bits each) in any table entry", steps=2000000),
  h("C11_Strings", "any bytes in the id and text of an entry"),
  h("C11_Truncated", "a file cut at any byte")],
 observe=["Mo.Parse, then Get*"], assume=["a single allocation above 16 MiB or a path above 2 million instructions counts as unbounded"])

prop("C12", "A catalogue answers the same from PO and from MO",
 "A PO file and the MO file compiled from it give the same answer to every lookup and the same list of translations.",
 ["inputs"], "all entries of bounded text and any shape, all ids, contexts and counts asked for",
 "The tests compare a few strings of two fixtures.",
 ["po.go", "mo.go", "domain.go"], [("shared catalogue behind both parsers", "domain.go")],
 [h("C12_Same", "entries of 4 shapes with any texts, empty forms included, 2 layouts, 4 rules, any id, context and count"),
  h("C12_Entry", "entries of 63 shapes next to one of 4 others, both lists compared field by field"),
  h("C12_Few", "no header, an empty one, one without and one with a rule (6 rules), with and without an entry, any letter in the language, any count"),
  h("C12_Text", "any text of 3 characters in any of the fields of an entry"),
  h("C12_List", "any pair of entry kinds, with an empty last form or not, 2 layouts")],
 assume=COUNT + ["the MO file is what msgfmt writes: entries without any translation are left out"], observe=["Get*, IsTranslated*, GetTranslations"])

prop("C13", "A catalogue written as PO text reads back as the same catalogue",
 "Writing any catalogue as PO text and reading it again gives the same answers, headers, header comments, references, ids and plural ids.  Writing it once more gives the same text.",
 ["inputs", "histories"], "all texts of bounded length in any place, all histories of stores, all pairs of entry kinds, headers and references of the table",
 "The tests round-trip two fixtures whose texts need little escaping.",
 ["domain.go", "po.go"], [("MarshalText and EscapeSpecialCharacters", "domain.go"), ("Po.Parse", "po.go")],
 [h("C13_Text", "any text of up to 3 characters (thorough: 4) in any of 8 places"),
  h("C13_History", "2 stores (thorough: 3) of 5 kinds, then any lookup of the copy"),
  h("C13_File", "any pair of entry kinds, header values of any character (thorough: 2), header comments and references"),
  h("C13_Entry", "entries of 63 shapes with up to two references, from a file or from setters, both lists compared field by field"),
  h("C13_Forms", "any set of filled and empty forms, 3 rules, with and without context"),
  h("C13_Comments", "3 comment lines (thorough: 4) of any 0 to 2 characters (thorough: 3) at the head of the file"),
  h("C13_HeaderNames", "a header with any name of 2 and any value of 1 printable character, before or after another"),
  h("C13_Headers", "2 headers (thorough: 3) of 5 names, repeated or not, values of any 0 to 2 characters")],
 assume=COUNT + ["ids are not empty: in a PO file the empty id is the header"], observe=["MarshalText, then Po.Parse"])

prop("C14", "Writing a catalogue is deterministic and ordered",
 "The PO text of a catalogue depends only on its content: not on the order of the operations that built it, nor on map iteration order.  Headers come in the order gettext tools use with the others by name, and entries are ordered by the path and line of their first reference, then by context, then by id.",
 ["histories", "schedules"], "all orders of a set of operations, all map iteration orders, all pairs of references",
 "Go randomises map order per run; a test sees one order per run and rarely an unlucky one.",
 ["domain.go"], [("sorting before writing", "domain.go: MarshalText")],
 [h("C14_Order", "the operations building a catalogue, in every order"),
  h("C14_MapOrder", "every iteration order of every map walked while writing"),
  h("C14_Headers", "3 headers (thorough: 4) of 10 names, some differing only in case, in any order"),
  h("C14_Entries", "2 entries (thorough: 3) with any id, any context or none, any path and line of up to 2 digits or none, every map order"),
  h("C14_Refs", "two entries with a reference to one of 3 files and any line of 1 or 2 digits, or of 5, 7 and 10 with any first and last digit")],
 observe=["MarshalText"])

prop("C15", "A catalogue survives a binary round trip",
 "Encoding any catalogue, whether built by stores or read from PO or MO, and decoding it into any object gives the same answers to every lookup, the same headers, language, plural rule, references and lists, also when repeated, and the copy can be changed further.  Data that cannot be decoded gives an error.",
 ["histories", "inputs"], "all catalogues of bounded histories and files, empty ones, any lookup",
 "The tests encode one fixture and look up one or two strings.",
 ["domain.go", "po.go", "mo.go", "locale.go"], [("MarshalBinary, UnmarshalBinary over TranslatorEncoding", "domain.go")],
 [h("C15_Set", "2 stores (thorough: 3) with any text, 4 rules, into 6 kinds of new and used objects, any lookup"),
  h("C15_File", "any pair of entry kinds from PO and MO, 5 rules, every n"),
  h("C15_Empty", "empty and used receivers"), h("C15_Twice", "a copy of a copy"), h("C15_Entry", "entries of 63 shapes, also with the empty id, with references, from a file or from setters, into 3 receivers, both lists compared field by field"), h("C15_Bad", "undecodable data")],
 assume=COUNT + GOB, observe=["MarshalBinary, UnmarshalBinary, then every accessor"])

prop("C16", "A locale survives a binary round trip",
 "Encoding a locale and decoding it gives a locale with the same language, path, default domain and domains, which answers every lookup alike and loads further domains from the same place.",
 ["histories"], "all locales of up to two domains of bounded histories, all lookups",
 "The test encodes one locale.",
 ["locale.go", "domain.go"], [("LocaleEncoding", "locale.go")],
 [h("C16_Locale", "0 to 2 domains with one arbitrary store, asked by name, any lookup"), h("C16_Default", "4 ways to choose the default domain, 0 to 2 domains, empty language and path or not, zero, new and used receiver, every n"), h("C16_Entry", "entries of 63 shapes, 1 or 2 domains, all lists compared field by field"), h("C16_Files", "a further domain loaded after decoding, 2 languages")],
 assume=COUNT + GOB + VFS, observe=["Locale.MarshalBinary, UnmarshalBinary"])

prop("C19", "Locale files are found in the documented places and order",
 "Adding a domain to a locale loads the first existing file in the documented order of language variants, directories and extensions, from a path, from a filesystem object or from a path inside one; the reported actual language is that of the loaded file, and nothing is loaded or crashes when there is none.  Adding it again reflects the files of that time.",
 ["configurations"], "all subsets of the candidate files, language names with territory, encoding and three-letter codes, three kinds of sources",
 "The fixtures hold one or two candidates each; which of several existing files wins is a matter of their combinations.",
 ["locale.go", "po.go", "mo.go", "helper.go"], [("findExt and baseLanguage", "locale.go")],
 [h("C19_Resolve", "every subset of the candidate files of 2 groups, all languages of the table, 2 domain names, 3 sources"),
  h("C19_Names", "any letters in languages of 4 shapes with and without encoding, any first character of the domain, any first candidate file, 2 filesystem sources"), h("C19_Direct", "ParseFile of PO and MO from disk and filesystem objects, present, absent or a directory"),
  h("C19_Kinds", "any first candidate and any later one, the first empty, without entries, with the header only, of any 2 bytes, or good, 3 sources"),
  h("C19_Reload", "a file that appears, changes and disappears")],
 assume=VFS, observe=["AddDomain, GetActualLanguage, ParseFile, lookups"])

prop("C20", "A locale routes every lookup to the right domain",
 "A lookup that names a domain uses that domain only; one that does not uses the default domain, which is the one last set or else the first one added.  Listing the translations of a locale lists those of all its domains.",
 ["histories"], "all sequences of adding, replacing and selecting domains of bounded length, then any lookup",
 "The tests use one or two domains in one order.",
 ["locale.go"], [("Domains map and default domain", "locale.go")],
 [h("C20_Route", "3 operations (thorough: 4) of 8 kinds (objects, files present and missing, default), then any of 4 lookups, any count, asked by default or by name"), h("C20_Replace", "a domain added three times in 5 ways (objects and files, PO and MO, the same object changed)"), h("C20_All", "0 to 3 domains, also with an entry that has no text, any default, every map order")],
 assume=COUNT, observe=["AddTranslator, SetDomain, GetD…"])

prop("C21", "Package lookups try the configured languages in order",
 "A package-level lookup returns the translation of the first configured language that has one for that id, form and context, and otherwise the fallback.  IsTranslated functions report whether one of the languages, or one of those given, has it.  A domain that was not configured is loaded when it is first used, without changing the default one.",
 ["configurations", "inputs"], "all chains of up to three languages in any state, all eight lookups, all counts",
 "The tests configure one or two fixed languages.",
 ["gotext.go", "locale.go"], [("loops over the configured locales", "gotext.go")],
 [h("C21_Chain", "1 to 3 languages, each without the domain, without the entry, with an empty or a full entry, from objects or files, 8 lookups, every n"),
  h("C21_Langs", "1 to 2 languages (thorough: 3), 1 to 2 languages asked for in 5 spellings, 8 functions, every n"),
  h("C21_Form", "2 languages, each with any of 3 rules and any set of filled forms, and the same id in the other context or not; every n"),
  h("C21_Same", "2 or 3 locales of 2 languages, equal or not, 3 states, from objects or files of another directory, 5 lists of languages asked for, every n"),
  h("C21_OnDemand", "a domain of the first, the second or no language, 8 functions, every n")],
 assume=COUNT + VFS, observe=["Get… and IsTranslated… of the package"])

prop("C22", "The package configuration is what was last set",
 "After any sequence of configuration calls the getters return the library, languages and domain last set, the locales are those of that configuration, and lookups use the files it selects.  Language lists are split at colons and each name simplified.  Before anything is configured every function answers with the fallback and the documented defaults.",
 ["histories", "configurations"], "all sequences of configuration calls of bounded length, all language lists up to a length",
 "The tests set each value once.",
 ["gotext.go", "helper.go"], [("globalConfig and loadLocales", "gotext.go")],
 [h("C22_Config", "3 calls (thorough: 4) of 15 kinds, empty values among them, from the initial state"), h("C22_Languages", "every list of 2 printable characters (thorough: 3), through both functions"),
  h("C22_Locales", "0 to 2 locales in any of 5 states, or a storage, after 4 earlier configurations, asked for any of 4 domains"), h("C22_Again", "3 earlier configurations, with and without a file, then one of 6 calls that set what is set after the file has changed"), h("C22_Unconfigured", "9 groups of functions on the initial state, any id, plural and count")],
 assume=COUNT + VFS, observe=["Configure, SetLanguage, SetDomain, SetLibrary, SetLocales, SetStorage, getters"])

prop("C23", "Locale names are simplified to language and territory",
 "Simplifying a locale name removes the encoding, the modifier, further languages of a list and surrounding blanks, and changes nothing else.",
 ["inputs"], "all strings up to a length",
 "The tests list about five names.",
 ["helper.go"], [("SimplifiedLocale", "helper.go")],
 [h("C23_Simplified", "every byte string of at most 5 bytes (thorough: 6)"), h("C23_Shape", "every name of up to 8 letters, digits, hyphens and underscores (thorough: 12), 5 tails"), h("C23_Real", "6 real names with any 3 bytes after a separator")],
 observe=["SimplifiedLocale"])

prop("C24", "Catalogue headers are kept as written, the special ones found in any case",
 "Every header line of a catalogue is found under its name, exactly as written, with its value; repeated names keep all their values in order.  The language and the plural rule take effect whatever the case of their header names and wherever they stand.  The header map is a map from exact names to lists of values.",
 ["inputs", "histories"], "all names and values of bounded length, all cases of the two special names, all short histories of the header map",
 "The tests read the headers of the fixtures.",
 ["domain.go"], [("parseHeaders and HeaderMap", "domain.go")],
 [h("C24_Lines", "a header with any name of up to 2 characters, blanks among them, and any value of up to 3 characters (thorough: 5), 3 spacings, PO and MO"), h("C24_Case", "4 spellings of each special name, with and without blanks, in either order, every n"),
  h("C24_Repeat", "2 (thorough: 3) values of one header, some of them empty, adjacent or not, 3 names"), h("C24_Map", "sequences of Add, Set and Del with any one-byte names and values")],
 assume=COUNT, observe=["Headers, Language, GetN"])

prop("C25", "Named format verbs print their own parameter",
 "Formatting with named verbs replaces each of them by its own parameter formatted by that verb, in any order, repeated or not, and leaves all other text as it is.",
 ["inputs"], "all formats of two named verbs and arbitrary literals, all names and verbs, all single characters of a name",
 "The tests format three fixed texts.",
 ["helper.go"], [("reformatSprintf", "helper.go")],
 [h("C25_Named", "two named verbs (thorough: 3) of 4 names and 5 verbs, literals of any 0-1 byte or escaped percent signs, 2 tails (thorough: 4)"), h("C25_Params", "1 or 2 parameters and a verb of any names of 1 or 2 characters"), h("C25_Text", "any 0-1 bytes (thorough: 2) on both sides of a verb, percent signs escaped"),
  h("C25_Name", "every byte inside a name, every verb but T, p, v"), h("C25_None", "every text of up to 2 bytes (thorough: 3) without a named verb"), h("C25_Printed", "NPrintf, 0 to 2 verbs (thorough: 3) of 4 names, any parameters, any byte at the end"),
  h("C25_Width", "every width and precision of up to 2 characters (thorough: 3), 4 verbs")],
 observe=["Sprintf"])

prop("C26", "Stale translations, references and copies are kept apart",
 "Dropping stale translations removes exactly the translations that no setter touched since the file was read, in every context.  References are those last set or read, and neither they nor texts disturb each other.  The lists of translations are complete copies: changing them does not change the catalogue.",
 ["histories"], "all sequences of setters of bounded length after reading a file, all changes of the copies",
 "The tests drop after one setter.",
 ["domain.go", "translation.go", "locale.go"], [("dirty flag", "translation.go"), ("copying accessors", "domain.go: GetTranslations, GetCtxTranslations")],
 [h("C26_Stale", "2 setters (thorough: 3) of 3 kinds, 3 ids, 3 contexts, new texts or those there are, any n, with references like those of the file or not, then dropping through Po or Domain"), h("C26_Empty", "2 setters (thorough: 3), empty ids, contexts and texts among 3 ids, then dropping"), h("C26_Deep", "entries of 7 shapes, with a context and without, 3 ways to change the copies of 3 lists"), h("C26_Refs", "3 operations, references of any 2 characters from the file"), h("C26_Copies", "catalogue and locale lists, every field of the copies changed")],
 assume=COUNT, observe=["DropStaleTranslations, SetRefs, GetRefs, GetTranslations, GetCtxTranslations"])

prop("C27", "The extractor collects exactly the translatable calls",
 "The extractor collects each call of a lookup function on the package or one of its types whose texts are string literals, with domain, context, id and plural taken from the arguments the function documents, whatever the literals contain, and with the call's location.  Other calls, and calls with other arguments, collect nothing and do not disturb it.",
 ["programs", "inputs"], "all lookup functions, any mixture of literal and other arguments in any number, receivers of any type, literals of any character in each form",
 "The tests extract one fixture program.",
 ["cli/xgotext/parser/gofile.go", "cli/xgotext/parser/domain.go"], [("table of argument positions", "cli/xgotext/parser/gofile.go"), ("type check of the receiver", "cli/xgotext/parser/gofile.go: CheckType")],
 [h("C27_Literals", "8 functions, literals in 4 forms with any character, 3 kinds of extra arguments"), h("C27_Args", "8 functions, 0 to 6 arguments each a literal, a variable, a number or an expression"),
  h("C27_Receivers", "14 kinds of receiver types, 5 other methods"), h("C27_Source", "Go source through go/parser: import names, lines, any 2 characters in a literal")],
 pkg="hx", assume=["type information is given to the extractor as go/types produces it; loading packages (running the go command) is outside the claim"], observe=["GoFile.InspectCallExpr"])

prop("C28", "Extracted files read back as what was extracted",
 "For any sequence of extracted calls, saving writes one file per domain, and reading it gives each text once with its id, plural, context and all its locations in order, a header that makes plurals work, and no translations.  The files do not depend on the order in which the texts were found or on map order.  Saving reports an error exactly when a file could not be written, and loses nothing by it.",
 ["histories", "inputs", "schedules", "faults"], "all sequences of up to three calls with equal or different ids, contexts, plurals and domains; all texts of bounded length; all map orders",
 "The test compares one generated file with a fixture.",
 ["cli/xgotext/parser/domain.go", "po.go"], [("merging of equal texts", "cli/xgotext/parser/domain.go"), ("escaping", "cli/xgotext/parser/domain.go")],
 [h("C28_Text", "any 2 ASCII characters (thorough: 3) as id, plural or context, awkward other texts"), h("C28_Merge", "3 calls with any of 2 ids, plural or not, 2 contexts (thorough: 3), 2 domains, places that begin alike or not"),
  h("C28_Order", "3 calls in 3 orders, every map order"), h("C28_Header", "any n"), h("C28_Failure", "1 to 3 domains, 6 states of the output directory, any character in the texts, every map order")],
 pkg="hx", assume=VFS + ["texts are valid UTF-8", "file names have no blanks, which the format of references cannot hold"], observe=["DomainMap.Save, then Po.Parse"])

prop("C29", "Directory extraction visits everything but the excluded directories",
 "Extracting from a directory tree visits every directory once, except the excluded ones and what lies below them; a name that merely begins like an excluded one is visited.",
 ["configurations", "inputs"], "all pairs of excluded names of the table and all names up to a length, over trees with similar names",
 "The test excludes one directory.",
 ["cli/xgotext/parser/dir/parser.go"], [("prefix test on relative paths", "cli/xgotext/parser/dir/parser.go: ParseDirRec")],
 [h("C29_Walk", "0 to 2 excluded names of 9, in a tree of 11 directories"), h("C29_Names", "every excluded name of at most 3 bytes (thorough: 4) in a tree of 5 directories"), h("C29_Dirs", "directories of 24 odd names at 3 places, 5 exclusions or none"), h("C29_Parsers", "three parsers adding to 1 to 3 domains each, a default domain or none, an error at any of 4 directories or none")],
 pkg="hx", assume=VFS + ["no directory of the tree is a Go package"], observe=["ParseDirRec with a recording parser"])

prop("C31", "A whole source tree is extracted, whatever its packages are called",
 "Extracting a directory tree collects the calls of every Go file of the directories visited; extracting a package tree collects those of the given package and of every package it imports, directly or not, that uses gotext.  Each call is collected once, with its file relative to the base and its line, whatever name gotext's functions are qualified with, whatever the packages and their other imports are called and whether these can be loaded, and whatever was extracted before.",
 ["programs", "configurations", "schedules"], "all import graphs of a bounded number of packages with any of them using gotext, all collisions of package and import names of the table, all kinds of receiver expressions in type-checked sources, both modes, all map orders",
 "The tests extract one fixture tree in which every name is different and which is extracted once.",
 ["cli/xgotext/parser/dir/golang.go", "cli/xgotext/parser/dir/parser.go", "cli/xgotext/parser/pkg-tree/golang.go", "cli/xgotext/parser/gofile.go"],
 [("packages by import name", "cli/xgotext/parser/gofile.go: ImportedPackages"), ("walk of the import graph with a cache", "cli/xgotext/parser/pkg-tree/golang.go: filterPkgsRec")],
 [h("C31_Calls", "18 kinds of calls in a source checked by go/types, 2 import names, any character in the text, both modes"),
  h("C31_Names", "2 files, 4 package names, another import of 4 names in 4 ways, gotext under 2 names, both modes"),
  h("C31_Graph", "every acyclic import graph of 3 packages (thorough: 4), each using gotext or not, every map order, both modes"),
  h("C31_Files", "2 files, any character in the text, one of 6 leading comments, 8 file names, 5 package names and 5 directories varied at a time (thorough: together), both modes"),
  h("C31_Again", "two extractions in a row with shared packages, both modes"),
  h("C31_Places", "a call at 44 places of a file (declarations, statements, other calls), any character in the text, both modes")],
 pkg="hx", assume=VFS + ["packages and their types are given to the extractor as go/packages and go/types make them; the go command itself is not run"], observe=["ParseDirRec, ParsePkgTree"])

prop("C32", "The xgotext command does what its flags say",
 "The xgotext command extracts the directory given with -in, without the directories listed in -exclude and what lies below them, or the package given with -pkg-tree and what it imports, and writes one template per domain into the directory given with -out, texts without a domain into the one named by -default.  When it has not exactly one input or no output, when a flag is unknown or has no value, or when the input cannot be read, it ends with a non-zero status and writes nothing; when the output cannot be written, it ends with a non-zero status.  Templates of an earlier run are replaced.",
 ["inputs", "configurations"], "all combinations of the flags, in three spellings, present, absent or unusable, with arbitrary names of the default domain and arbitrary excluded names",
 "No test runs the command; the tests of its packages call the functions behind it with fixed arguments.",
 ["cli/xgotext/main.go", "cli/xgotext/parser/dir/parser.go", "cli/xgotext/parser/domain.go"],
 [("flags and their checks", "cli/xgotext/main.go")],
 [h("C32_Directory", "a tree of 7 packages, 3 spellings, default domain absent, fixed or any letter, 7 lists of excluded directories with any character in two of them"),
  h("C32_Package", "3 starting packages, 3 spellings, default domain absent or any letter, with and without -exclude"),
  h("C32_Wrong", "every combination of absent, usable and unusable -in, -pkg-tree and -out (four ways), an unknown flag or one without its value")],
 pkg="hm", assume=VFS + ["packages and their types are given to the extractor as go/packages and go/types make them; the go command itself is not run", "log, flag and os of the command's own file are stand-ins that report the exit status; flag parsing is that of the real flag package"], observe=["exit status and files written"])

prop("C33", "Calls leave no goroutine and no file behind",
 "When a call of the library or of the extractor has returned, every goroutine it started has ended or ends by itself, and every file it opened is closed, whether the call succeeded or not and whatever text, formula, file or directory it was given.",
 ["inputs", "faults"], "formulas with arbitrary short texts around their parentheses, catalogues with such formulas in their headers, files in every place that are whole, cut, unreadable or failing in the middle, output directories that are usable or not",
 "A goroutine or a file that is left behind changes no result; it takes many calls before a process notices, and it happens on inputs that are rejected.",
 ["plurals/compiler.go", "po.go", "mo.go", "locale.go", "translator.go", "cli/xgotext/parser/domain.go"],
 [("goroutines that cut a formula into chunks", "plurals/compiler.go split, scan"), ("files opened and closed", "translator.go getFileData, cli/xgotext/parser/domain.go Save")],
 [h("C33_Compile", "five formula shapes with two holes of any 0-1 bytes (thorough: 0-2), any n"),
  h("C33_Catalogue", "five formulas followed by any 0-1 bytes (thorough: 0-2), read from PO, MO or encoded data, and encoded again"),
  h("C33_Files", "5 places, both formats, 3 lengths, any byte at the end, 4 kinds of failure, on disk and in a file system object"),
  h("C33_Save", "1 to 3 domains, 6 states of the output directory and its files, one of them a failing write, every order of the domains")],
 pkg="hx", assume=VFS, observe=["goroutines and open files after the call"])

exec(open(os.path.join(V, "tools", "conc_spec.py")).read()) if os.path.exists(os.path.join(V, "tools", "conc_spec.py")) else None
exec(open(os.path.join(V, "tools", "large_spec.py")).read())
P.sort(key=lambda p: p["id"])
NA = globals().get("NA", [])

LEVEL = ("Bounded symbolic execution of the real code (go/ssa of the current tree) with an SMT solver deciding every branch and assertion: within the stated bounds no input breaks the property, except where the evidence reports a bound as reduced. "
         "Every counterexample is replayed natively before it is reported, and completed paths are replayed natively as a check of the encoding. Trusted: the engine's SSA semantics, z3, the models of library primitives listed in the evidence, the reference models in the harnesses.")

def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "state": [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]],
                            "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "observe_at": p["observe"], "hook_needed": None}}, ensure_ascii=False) + "\n")
    claimed = [p for p in P if p["hs"]]
    with open(os.path.join(V, "harness", "props.json"), "w") as f:
        json.dump([{"id": p["id"], "pkg": p["pkg"], "harnesses": p["hs"], "assumptions": p["assume"] + MODEL} for p in claimed], f, indent=1, ensure_ascii=False)
        f.write("\n")
    man = {"version": 1, "setup_cmd": "./check.sh setup",
        "checks": [{"property": p["id"], "quick_cmd": f"./check.sh check -prop {p['id']} -tier quick", "thorough_cmd": f"./check.sh check -prop {p['id']} -tier thorough",
            "technique": p.get("technique", "solver-based checking: symbolic execution of the Go SSA of the real code, z3 deciding paths and assertions"),
            "level": "model_checking", "level_note": LEVEL + (" " + p["note"] if p["note"] else "")} for p in claimed],
        "not_applicable": [{"property": i, "reason": r} for i, r in NA],
        "notes": "No hooks in /repo: harnesses are overlaid as packages of the module. See DESIGN.md."}
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1, ensure_ascii=False); f.write("\n")
main()
