CONC = ["preemption points are the lock acquisitions of the code under test; races and deadlocks are decided by the solver over all reorderings of each explored run that keep what was read",
        "the schedules explored have at most the stated number of preemptions",
        "sync.Mutex and sync.RWMutex behave as documented, writers going before later readers"]
CT = "solver-based checking: symbolic execution of the Go SSA of the real code under symbolic schedules; z3 decides schedules, and an SMT query per trace over event orders decides races and deadlocks"

prop("C17", "Sharing the library's objects between goroutines never races",
 "Whatever two goroutines do with the same catalogue, the same locale or the package at the same time, every access to memory that one of them writes is ordered by a lock, so that the race detector has nothing to report and no map is read while it is written.  Goroutines using separate objects share no unprotected state at all.",
 ["schedules"], "all pairs of operations of catalogues, locales and the package; all schedules with a bounded number of preemptions, and all reorderings of each",
 "The tests start a few goroutines for a few of the operations; whether a race shows depends on the schedule, and pairs such as decoding against reading the language are never run.",
 ["domain.go", "po.go", "mo.go", "locale.go", "gotext.go"],
 [("trMutex and pluralMutex of a catalogue", "domain.go"), ("RWMutex of a locale", "locale.go"), ("RWMutex of the configuration", "gotext.go")],
 [h("C17_Po", "all pairs of 28 operations on one Po, 1 preemption (thorough: 2) and all reorderings"),
  h("C17_Mo", "the same on one Mo"),
  h("C17_Locale", "all pairs of 31 operations on one Locale, 1 preemption (thorough: 2) and all reorderings"),
  h("C17_Package", "all pairs of 33 package-level operations, 1 preemption (thorough: 2) and all reorderings", deep=900),
  h("C17_Odd", "19 less usual operations (empty and new contexts, bad data, clearing) against each other and 11 others, on a Po and a Mo, 1 preemption (thorough: 2) and all reorderings"),
  h("C17_First", "all pairs of 15 operations on a locale without a domain, 1 preemption (thorough: 2) and all reorderings"),
  h("C17_Separate", "all pairs of 35 operations on separate objects, 1 preemption (thorough: 2)")],
 pkg="hc", assume=CONC + GOB + VFS + ["callers do not touch the exported fields themselves"], observe=["all exported operations"])

prop("C18", "Operations on shared objects always finish and release their locks",
 "Whatever two or three goroutines do with the same objects, all of them finish: no schedule leaves goroutines waiting for each other's locks for ever, not even when a reader takes a lock twice with a writer waiting in between.  Afterwards every lock is free, also when an operation ended because a resolver, a translator or a file system supplied by the caller panicked.",
 ["schedules", "fault_sequences"], "all pairs, and triples of one operation per locking pattern; all schedules with a bounded number of preemptions, all reorderings of their lock operations; a panic in every callback",
 "A deadlock needs a certain interleaving, which the tests do not control; no test makes a callback panic.",
 ["domain.go", "po.go", "mo.go", "locale.go", "gotext.go"],
 [("order of trMutex before pluralMutex", "domain.go"), ("configuration before locale before catalogue", "gotext.go, locale.go"), ("unlocking by defer", "domain.go, locale.go, gotext.go")],
 [h("C18_Catalogue", "all pairs of 28 operations on a Po and a Mo, 2 preemptions (thorough: 3) and all reorderings of the lock operations"),
  h("C18_Three", "all triples of 10 operations on one catalogue, 1 preemption (thorough: 2) and all reorderings"),
  h("C18_Locale", "31 operations against 8 writes on one Locale, 2 preemptions (thorough: 3) and all reorderings"),
  h("C18_Package", "all pairs of 33 package-level operations with a write, 1 preemption (thorough: 2) and all reorderings", deep=900),
  h("C18_Odd", "19 less usual operations (empty and new contexts, bad data, clearing) against each other and 11 others, on a Po and a Mo, 1 preemption (thorough: 2) and all reorderings"),
  h("C18_Input", "MO heads of up to 27 arbitrary bytes, an MO file with any value in one of nine fields (and any version) or cut anywhere, PO lines of nine kinds with up to 2 arbitrary bytes (thorough: two lines of up to 3), broken headers, cut encodings, then every lock of the object"),
  h("C18_Files", "empty, broken, mixed-up and unreadable files, through a locale and through the package"),
  h("C18_First", "6 writes against 15 operations on a locale without a domain, 2 preemptions (thorough: 3) and all reorderings"),
  h("C18_Panic", "46 operations with a resolver that panics at any count, every n"),
  h("C18_PanicLocale", "31 operations on locales with a panicking translator or file system"),
  h("C18_PanicPackage", "33 package-level operations with such locales installed")],
 pkg="hc", assume=CONC + GOB + VFS + ["callbacks do not call back into the object that calls them"], observe=["termination and use of the objects afterwards"])

prop("C30", "Concurrent operations give what they give one after the other",
 "When two operations run at the same time on a catalogue, a locale or the package, what they return and what the objects contain afterwards is what one of the two orders gives.  In particular no lookup sees one half of a change, and no change is lost.",
 ["schedules", "inputs"], "all pairs of operations with at least one that writes, all counts, all schedules with a bounded number of preemptions",
 "The tests only check that concurrent use does not crash; a stale plural rule or a lost update needs a preemption between two lock acquisitions.",
 ["domain.go", "po.go", "mo.go", "locale.go", "gotext.go"],
 [("one critical section per operation", "domain.go, po.go, mo.go"), ("rebuild under the configuration's lock", "gotext.go: loadLocales")],
 [h("C30_Po", "28 operations against 9 writes on one Po, every n, 2 ids, 2 preemptions (thorough: 3)"),
  h("C30_Mo", "the same on one Mo"), h("C30_Domain", "the same on a Domain without a formula"),
  h("C30_Locale", "31 operations against 8 writes on one Locale, every n, 2 ids, 1 preemption (thorough: 2)"),
  h("C30_Odd", "19 less usual operations (empty and new contexts, bad data, clearing) against each other and 11 others, on a Po and a Mo, every n, 1 preemption (thorough: 2)"),
  h("C30_First", "6 writes against 15 operations on a locale without a domain, every n, 2 preemptions (thorough: 3)"),
  h("C30_Package", "31 operations against 7 writes at package level, every n, 1 preemption (thorough: 2)", deep=900)],
 pkg="hc", assume=CONC[1:] + GOB + VFS + COUNT + ["lookups in the default domain are two steps, reading its name and looking up; replacing the domain and the files in between is not covered",
  "adding a domain reads the file before it is installed; decoding the locale in between is not covered"], observe=["return values and contents afterwards"])
P[-1]["technique"] = P[-2]["technique"] = P[-3]["technique"] = CT
