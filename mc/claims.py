NA = {}
STATELESS = "stateless model checking of the implementation: exhaustive depth-first enumeration of all choice vectors within bounds, "
T["C03"] = (MC, STATELESS + "here read schedules", "all uniform and all one-odd-read schedules within bounds on the real parser and reporters")
T["C04"] = (MC, STATELESS + "here every truncation point", "every prefix of the dumps, first and later runs")
T["C05"] = (MC, STATELESS + "here malformed inputs", "every single field and byte replaced by extreme values, record headers and reference graphs; not all byte strings")
T["C06"] = (MC, STATELESS + "here record kinds and headers", "every tag, sub-record type, Java type and header value; every sequence of root kinds up to a depth")
T["C07"] = (FE, "exhaustive crash-point enumeration (one and several kills, torn writes) on the implementation over an in-memory file system", "every file-system operation as kill point")
T["C08"] = (FE, "exhaustive fault enumeration (one, two, persistent faults) over all file-system operations of the implementation", "every operation of the indexing step")
T["C09"] = (FE, "exhaustive fault enumeration (one, two faults, cut files) over all file-system operations of the implementation", "every operation of a report")
T["C10"] = (MC, STATELESS + "here all histories of commands up to a depth", "all command sequences up to depth 3/4, all file names of a list")
T["C11"] = (MC, "stateless model checking of concurrent runs under a controlled scheduler with a preemption bound", "all schedules of 2 and 3 processes within 1-3 preemptions at operation granularity")
T["C31"] = (FE, "exhaustive enumeration of power-loss instants and surviving disk states on the implementation over an in-memory file system", "every operation as instant, every prefix of directory changes, every fate of unsynced files; the same after every failing fsync")
T["C12"] = (MC, STATELESS + "here the rows of the table", "all combinations of row kinds, counts, sizes, array lengths and names within bounds")
T["C13"] = (MC, STATELESS + "here ties of names, counts and sizes", "all tables of 3/4 classes over a pool of names and shapes, mixed and long tables, each report repeated")
T["C14"] = (MC, STATELESS + "here numbers of roots, classes and objects", "all combinations of root kinds, loaded classes and object kinds within bounds")
T["C15"] = (MC, STATELESS + "here layouts of the hash table", "all placements of 4/5 properties in the table, all pairs of text values, every subset of the environment, long chains")
T["C16"] = (MC, STATELESS + "here pairs of times and time zones", "a grid of boundary times, far-future times and every millisecond of a range")
T["C17"] = (MC, STATELESS + "here threads, class hierarchies and record orders", "all attribute combinations, subclasses with up to 3 levels of shadowing fields, field and record orders of up to 4 threads")
T["C18"] = (MC, STATELESS + "here call stacks", "all pairs of stacks of up to 4/5 frames over 3 frames, all location forms, deep stacks")
T["C19"] = (MC, STATELESS + "here sequences of local roots", "all sequences of up to 2/3 locals over threads, frames, kinds and object types")
T["C21"] = (MC, STATELESS + "here texts", "every Unicode character but NUL and surrogates, all words of 2/3 characters over an alphabet, lengths, representations and field orders")
T["C22"] = (MC, STATELESS + "here numberings of the identifiers", "all combinations of numberings of objects, classes, strings, frames and serial numbers, both identifier sizes")
T["C28"] = (MC, STATELESS + "here record orders and segment divisions", "all orders of the record groups, all single moves, all divisions at up to two places, all merges of object kinds of a small dump")
T["C29"] = (MC, STATELESS + "here histories of replacing, moving and reporting", "all histories up to depth 4/6 over 4 dumps and two paths; replacement before every operation of a run")
T["C23"] = (MC, STATELESS + "here descriptors", "all type descriptors up to a size, all words of class-name characters, all primitive and array types in objects, threads and signatures")
T["C24"] = (MC, STATELESS + "here texts placed in every slot of the reports", "every markup-relevant word of a pool in every text slot, pairs of slots; the page is parsed and its structure and text compared")
T["C25"] = (MC, STATELESS + "here dumps, options and texts", "all combinations of options, shapes of the lists and texts within bounds; plain, coloured and HTML output compared")
T["C26"] = (MC, "stateless model checking: exhaustive enumeration of the virtual-time latencies of the reads that interleave display and parser", "all latency vectors within bounds, faults and truncations during a run, in virtual time; the unmodified binary on top")
T["C27"] = (MC, STATELESS + "here command lines", "all spellings, orders and subsets of the options, all refused values, paths, and failures within bounds")
T["C30"] = (MC, STATELESS + "here sizes and numbers of records, measuring the peak of each run", "dumps of up to 30 million objects or several GB, by kind of record")
T["C02"] = (MC, STATELESS + "here kinds, ids, orders, numbers and places of objects", "all kinds, orders and id tables of up to 5 objects, every object of up to 4 million around the batch boundaries, offsets beyond 2^31 and 2^32")
T["C01"] = (MC, STATELESS + "here records and their field values, replayed through the real parser, the index written out and restored", "all forms of class records within bounds, boundary values of every field in pairs, all root sequences and record orders up to a depth, counts up to the format's limits")
T["C20"] = (MC, STATELESS + "here class hierarchies with their objects' data", "all hierarchies of up to 4 classes with up to 2 fields over nine types, all cuts of the data, deep hierarchies")
T["C32"] = (FE, "exhaustive fault enumeration over the writes to standard output of the implementation; the unmodified binary on a full device and a closed pipe on top", "every byte (or every few of long reports) after which standard output is full, every write failing alone or with a second one, for every command and option")
T["C33"] = (MC, STATELESS + "here the surroundings of a run; the virtual clock of testing/synctest for the time of day", "all surroundings that differ from the usual ones in one (six commands) or two (two commands; thorough: six, and three for two) of 17 dimensions; all values of all environment variables the code looks at")
T["C34"] = (MC, STATELESS + "here file creation masks, looking at the file system between every two operations", "all 64 masks that leave the owner's rights, every command, every instant of a run")
T["C35"] = (MC, STATELESS + "here numbers and kinds of objects, monitoring every file-system operation of each run", "all kinds of objects, both identifier sizes, seven (eight) sizes up to 1.2 (3) million objects, every command as first and later run")
T["C36"] = (MC, STATELESS + "here damages of the index", "all lengths of each index file, missing files and directories, pairs of damaged files, exchanged contents, six values (all) of every byte of the object indexes, for every command and both identifier sizes")
T["C37"] = (FE, "exhaustive enumeration of injected faults, damaged dumps and interleavings of the implementation over an in-memory file system, looking at the whole file system afterwards", "every operation failing with one to five errors, all later ones of a kind failing over up to two runs, pairs of faults, every cut and one changed value of every byte of a dump (two dumps, all commands), two processes with 2 (3) preemptions")
