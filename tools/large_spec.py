# Large inputs: most bytes fixed, one or more arbitrary, the sizes enumerated.
BIG = dict(steps=12000000)
SIZES = "12, 70 and 300 (thorough: 1100)"
LARGE = {
 "C01": [h("C01_Long", "six shapes of formulas of 7, 20 and 36 (thorough: 60) tests, results, parentheses or blanks, one constant any digit, every n", **BIG)],
 "C02": [h("C02_Long", "seven shapes of formulas of 7, 20 and 36 (thorough: 60) repeated parts with one arbitrary byte, every n", **BIG)],
 "C03": [h("C03_Large", SIZES + " entries in 0, 2 or 70 contexts, one character of all texts arbitrary, the first or the last stored again", **BIG)],
 "C04": [h("C04_Large", "rules of 9, 11 and 13 (thorough: 40) forms, one of three forms without a text, every n, 2 layers", **BIG)],
 "C05": [h("C05_Large", "texts of 5, 17 and 70 (thorough: 300) pairs of arguments after up to 3500 (15000) characters, one any byte, 6 layers", **BIG)],
 "C06": [h("C06_Large", "texts of 30, 200 and 1500 (thorough: 70000) characters, one arbitrary, appended four times to buffers of as many, with 4 capacities", **BIG)],
 "C08": [h("C08_Long", "texts and comments of 60, 1100, 5000 and 70000 characters, three arbitrary, in four fields, on one line or continued", **BIG),
         h("C08_Large", SIZES + " entries, all, some or none with contexts, one character of all texts arbitrary", **BIG),
         h("C08_LargeEntry", "an entry with 9 to 300 (thorough: 1100) references on lines of 1 or 10, pieces of its id and text, pieces of its text, or plural forms, with and without context, one character arbitrary", **BIG)],
 "C09": [h("C09_Large", "six kinds of broken parts of 40, 1000 and 5000 (thorough: 70000) characters ending in any 2 bytes", **BIG)],
 "C10": [h("C10_Large", SIZES + " entries and one of 1, 300 or 70000 characters, one character of all arbitrary, both byte orders", **BIG)],
 "C12": [h("C12_Large", SIZES + " entries, one character of all texts arbitrary", **BIG)],
 "C13": [h("C13_Large", "12, 40 and 150 (thorough: 600) entries, headers and references, texts of as many words, one character of all texts arbitrary", **BIG)],
 "C14": [h("C14_Large", "14, 30 and 60 (thorough: 200) entries ordered by id, by context, by line or by file, read in two orders", **BIG)],
 "C15": [h("C15_Large", SIZES + " entries and references, a text of 300 times as many characters, one character of all texts arbitrary", **BIG)],
 "C16": [h("C16_Large", "5, 17 and 40 (thorough: 150) domains, one character of all texts arbitrary", **BIG)],
 "C20": [h("C20_Large", "5, 17 and 40 (thorough: 150) domains, one character of all texts arbitrary", **BIG)],
 "C21": [h("C21_Large", "5, 17 and 40 (thorough: 150) languages, the first translation in the first, the middle, the last or none, from objects or files", **BIG)],
 "C23": [h("C23_Large", "names of 20, 100 and 1000 (thorough: 5000) characters, two arbitrary, between as many blanks, with and without a long suffix", **BIG)],
 "C24": [h("C24_Large", "5, 40 and 150 (thorough: 600) headers of growing length and a header repeated as often, one character of all values arbitrary, PO and MO", **BIG)],
 "C25": [h("C25_Large", "formats of 8, 20 and 70 (thorough: 300) named verbs with names of up to 42 characters, one byte of all values arbitrary", **BIG)],
 "C26": [h("C26_Large", SIZES + " entries of which all, half, a fifth or one is live", **BIG)],
 "C27": [h("C27_Large", "literals of 30, 300 and 5000 (thorough: 70000) characters, one arbitrary, plain, raw or escaped, in calls of 8 getters with up to 500 further arguments", **BIG)],
 "C28": [h("C28_Large", "14, 40 and 90 (thorough: 300) calls in 3 domains and a text found in as many places", **BIG)],
 "C29": [h("C29_Large", "trees 8, 20 and 60 (thorough: 200) deep and wide, a third of the wide part and half of the deep one excluded", **BIG)],
}
for p in P:
    p["hs"] += LARGE.get(p["id"], [])
