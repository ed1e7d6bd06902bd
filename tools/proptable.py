prop("C01", "Acknowledged saves read back identically",
     "When saving embeddings, or a single component of them, to a finalfusion file returns normally, the file is a "
     "complete finalfusion file and every loader that fits it (all at once or one component, eagerly or memory "
     "mapped) returns exactly the vocabulary, matrix or quantized storage, norms and metadata that were saved, and names the file as "
     "their origin. Loading needs no permission to write. This holds for every kind of vocabulary and storage, every memory layout and byte order of the arrays, every form "
     "of the path argument (text, bytes, path object, relative path, file descriptor), and however the operating "
     "system splits the reads and writes; arrays of another type than the format holds are refused rather than saved wrongly. Saving what was loaded gives the same bytes again.",
     ["inputs", "fault_sequences", "configurations"],
     "all embeddings, target forms and partitions of the I/O into partial reads and writes",
     "The tests save and load a handful of fixed embeddings on an undisturbed disk; they never see a partial read or "
     "write, a descriptor as path, strided or foreign-endian arrays, or unusual words.",
     [EMB, IO, NORMS, META, ND, PQ, VOC, SUB, SIM],
     mech(("Embeddings.write / chunks", EMB), ("write_chunk / read_chunk of each component", IO),
          ("load_finalfusion", EMB), ("_serialize_array_as_le / _read_array_as_native", IO)),
     ["bytes on the simulated disk after the save returned", "attributes and lookups of the loaded objects"],
     note="Seeded search over embeddings x target forms x partial I/O; oracle is an independent decoder of the format "
          "plus the generated content. Trusts ffsim/model.py and that metadata is toml-representable.",
     technique="partial reads/writes at every system call of save and load, reference decoder as oracle")

prop("C02", "A save that lost data never reports success",
     "If the operating system refuses any part of a save (disk full after any number of bytes, an error from any "
     "write or from the close), the save raises and a command line tool exits with non-zero status; it never returns "
     "normally with an incomplete or different file. This holds for finalfusion files, single components, word2vec, "
     "text, text-dims and fastText output and for the converting tools. Once the disk works again the same save "
     "succeeds.",
     ["fault_sequences", "inputs"],
     "every fault position (byte offset or call) and error kind during every kind of save",
     "The tests only write to a healthy disk with room.",
     [IO, EMB, NORMS, META, ND, PQ, VOC, SUB, SIM, W2V, TXT, FT] + SC,
     mech(("with open(...) around every save", EMB), ("_serialize_array_as_le, _write_binary", IO),
          ("Format.write", S + "scripts/util.py")),
     ["return or exception of the save", "bytes on the simulated disk compared with a fault-free save"],
     note="Seeded search over fault kind x position x format; the fault-free save of the same object is the reference. "
          "Data accepted by write() and close() counts as stored (the package does not fsync).",
     technique="disk-full, write and close errors at planned offsets and ordinals of a save")

prop("C03", "A torn finalfusion file is never taken for a complete one",
     "If a save of a finalfusion file is cut short at any instant (crash, kill) or is still running, every loader "
     "started on what is on disk either raises an exception or returns exactly what the completed save would have "
     "given for the part it loads; shortened words, missing norms, short arrays or mixtures are never returned. The "
     "loader ends in a bounded number of steps and leaves no descriptor open.",
     ["crash_points", "schedules", "inputs"],
     "every prefix of the sequence of changes a save makes to the disk, and every interleaving of a reader with the "
     "save",
     "The tests load complete files and two hand-made broken ones; they cover no crash point and no concurrent "
     "reader.",
     [EMB, IO, NORMS, META, ND, PQ, VOC, VOI, STI, SUB, SIM],
     mech(("_read_required_binary, _read_chunk_header", IO), ("length checks of read_chunk", VOC),
          ("load_finalfusion", EMB), ("find_chunk", IO)),
     ["outcome of each loader on the rebuilt disk image"],
     note="Seeded search over crash instants (every byte of every write is a possible instant) and reader "
          "interleavings. Assumes a crash keeps an ordered prefix of the accepted writes: the format carries no "
          "checksums, so lost blocks inside a file are undetectable by design.",
     technique="crash images rebuilt from the recorded write log at planned instants, and a scheduled live reader")

prop("C04", "A torn or malformed foreign-format file never yields made-up vectors",
     "Loading a word2vec, fastText, text or text-dims file that was cut short at any instant (crash, kill) either raises "
     "or returns exactly the words and vectors that the remaining bytes state; it never returns vectors with missing, "
     "stale or invented components, shortened words or fewer rows than the file announces. Words that are not valid "
     "UTF-8 are refused with a decoding error unless lossy decoding was asked for, and then only the malformed bytes are "
     "replaced. A loaded vector times its norm is the vector in the file, zero vectors included. The user's "
     "locale does not matter.",
     ["crash_points", "inputs", "fault_sequences"],
     "every prefix of files written by the package or other programs, and every partition of the reads",
     "The tests load complete, well-formed example files only.",
     [W2V, TXT, FT, IO, S + "_util.py"],
     mech(("load_word2vec", W2V), ("load_text / load_text_dims / _load_text", TXT), ("load_fasttext", FT),
          ("_read_required_binary", IO)),
     ["exception, or words, vectors, norms and metadata of the embeddings returned"],
     note="Seeded search over formats x writers x cut points x read partitions; oracle is an independent parser of each "
          "format. Text formats have no end marker, so there a cut is only detectable inside a row.",
     technique="crash images of foreign-format files at planned instants behind partial reads, reference parser as oracle")

prop("C05", "Saving never changes the embeddings",
     "Saving embeddings in any format leaves words, vectors, norms and metadata of the embeddings bit for bit as they "
     "were and usable, whether the save succeeds, fails with a disk error at any point, is interrupted at any instant, or "
     "runs at the same time as another save or queries of the same embeddings. A later undisturbed save of the same "
     "embeddings gives the same file as if the disturbed one had never happened.",
     ["fault_sequences", "schedules", "inputs"],
     "every fault position, interruption instant and interleaving of saves and queries",
     "The tests save once, undisturbed and alone, and look at the file only.",
     [EMB, IO, NORMS, META, ND, PQ, VOC, SUB, SIM, W2V, TXT, FT],
     mech(("write_chunk of each component", EMB), ("un-normalising writers", W2V), ("_write_text", TXT),
          ("write_fasttext", FT)),
     ["attributes of the embeddings before and after", "bytes of the following save"],
     note="Seeded search over formats x disturbance kind x position. Interruption is modelled at bytecode granularity in "
          "the package's Python code; numpy calls are atomic.",
     technique="disk faults, asynchronous interrupts and interleaved saves/queries, bit-exact state comparison")

prop("C06", "A load that fails part way says so and can simply be repeated",
     "If the operating system fails any read, seek, open or mapping during a load in any format, or the load is "
     "interrupted or runs out of memory at any instant, the load raises, or returns exactly the contents of the file; it "
     "never returns partial or different embeddings. The file descriptors and mappings of the failed load are released, "
     "the file is untouched, and loading again once the disturbance is gone returns the full contents.",
     ["fault_sequences", "inputs"],
     "every failing call, error kind and interruption instant during every kind of load",
     "The tests never see a read error, an interrupted load or a failed mapping.",
     [EMB, IO, NORMS, META, ND, PQ, VOC, SUB, SIM, W2V, TXT, FT],
     mech(("load_finalfusion and the component loaders", EMB), ("with open(...) around every load", IO),
          ("np.memmap of storages", ND), ("_read_array_as_native", IO)),
     ["outcome of the load, open descriptors and mappings afterwards, outcome of the repeated load"],
     note="Seeded search over loader x failing call ordinal x error, and interrupt instants at bytecode granularity. "
          "A signal (EINTR) may make the load give up.",
     technique="errors at planned read/seek/open/mmap calls and asynchronous interrupts during loads")

prop("C07", "Every component loads by itself from any file that holds it",
     "From every finalfusion file that contains a chunk a component loader can read (vocabulary of any or one kind, "
     "storage, norms, metadata; eager or memory mapped), wherever it stands among other chunks, in whatever order and "
     "however the reads are split, the loader returns exactly the contents of the first such chunk. If there is no such "
     "chunk it raises an error. Loads of different components by several callers at the same time do not "
     "influence each other.",
     ["inputs", "schedules", "fault_sequences"],
     "every sequence of chunks, alignment, loader and interleaving of loads",
     "The tests load components from a few fixed files, alone and undisturbed.",
     [IO, VOI, STI, NORMS, META, ND, PQ, VOC, SUB, SIM],
     mech(("find_chunk", IO), ("load_vocab", VOI), ("load_storage", STI), ("load_norms", NORMS),
          ("load_metadata", META)),
     ["component returned, or exception type"],
     note="Seeded search over chunk sequences x loaders x interleavings at bytecode granularity x read partitions; oracle "
          "is the independent encoder's content.",
     technique="interleaved component loads of assembled chunk sequences behind partial reads")

prop("C08", "A load sees exactly one version of a file",
     "If a file is replaced by another complete version, removed, or the working directory changes at any instant during "
     "a load (eager or memory mapped, whole embeddings or a component, any format), the load returns exactly one of the "
     "complete versions, never a mixture, or raises because there was no file to open. Embeddings that were loaded stay "
     "as they were when the file is replaced or removed later, and unless memory mapping was asked for also when it is "
     "overwritten or truncated in place.",
     ["schedules", "inputs"],
     "every instant at which the file is replaced or removed",
     "The tests run with nobody else touching the file.",
     [EMB, IO, ND, PQ, NORMS, META, VOI, STI, W2V, TXT, FT],
     mech(("mmap_chunk", ND), ("mmap_chunk", PQ), ("single open per load", EMB), ("find_chunk", IO)),
     ["embeddings or component returned"],
     note="Seeded search over loaders x replacement kinds x system call of the load. Versions are replaced as a whole "
          "(rename, unlink and create); overwriting in place is C03.",
     technique="file replaced, removed or working directory changed at planned system calls of a load")

prop("C09", "Queries by any number of callers are right and stay right",
     "Any number of callers may put lookups (with and without norms, out array and defaults), word, vector and "
     "analogy similarity queries (any k, any exclusions), iteration, containment, comparison of vocabularies, subword "
     "and n-gram queries, storage and norm accesses to the same embeddings at the same time; each gets the "
     "documented answer, as if it were alone. This holds for every vocabulary kind and storage, built in memory, loaded, or "
     "memory mapped even after the file was removed. Answers already handed out never change afterwards, what a caller does "
     "to a list it was given or to a vector that was computed for it (unknown words, quantized or picked rows) affects no "
     "other answer, and the embeddings and all arguments but the out array stay as they were.",
     ["schedules", "inputs", "configurations"],
     "every interleaving of callers, query and embeddings",
     "The tests query fixed embeddings from a single thread.",
     [EMB, VOC, SUB, SIM, ND, PQ, NORMS] + IDX,
     mech(("embedding, embedding_with_norm, __getitem__", EMB),
          ("word_similarity, analogy, embedding_similarity", EMB), ("idx, subword_indices", SUB),
          ("__getitem__, embedding", PQ), ("indexers", IDX[1])),
     ["answers, compared with a reference evaluation in double precision, when given and after all callers ended"],
     note="Seeded search over interleavings (switches between bytecodes; numpy and Cython calls are atomic) and queries; "
          "sums that cancel to nearly zero are not judged; single precision tolerance.",
     technique="seeded thread interleavings of concurrent queries, double-precision reference model as oracle")

prop("C10", "A query that fails or is interrupted leaves no trace",
     "A query that is interrupted at any instant, runs out of memory, or is refused because of an argument of wrong type, "
     "shape or range leaves the embeddings, and every vector handed out before, bit for bit as they were. All later "
     "queries, by the same or another caller running at the same time, get the documented answers. Query vectors of wrong "
     "length, rows out of range, and out arrays that cannot take the vector raise an exception.",
     ["fault_sequences", "schedules", "inputs"],
     "every interruption instant and invalid argument of every query, followed by any queries",
     "The tests run queries to completion; they check a few invalid arguments but not what follows.",
     [EMB, VOC, SUB, SIM, ND, PQ, NORMS] + IDX,
     mech(("embedding(out=, default=)", EMB), ("_similarity", EMB), ("embedding, embeddings", PQ),
          ("idx, idx_bound", SUB)),
     ["bit-exact state before and after", "answers of later queries"],
     note="Seeded search; interruption instants are bytecodes of the package's Python code. An interrupted query may "
          "leave anything in the out array it was given.",
     technique="asynchronous interrupts, invalid arguments and interleaved callers, then judged follow-up queries")

prop("C11", "Histories of operations have exactly the completed effects",
     "After any sequence of building embeddings, setting or clearing norms and metadata, sharing parts between embeddings, "
     "saving whole or in part, loading, memory mapping, converting to explicit n-grams and querying, in which any "
     "operation may fail or be interrupted, all embeddings and all completely saved files hold exactly what the completed "
     "operations made them: a failed operation changes nothing, and changing one of several embeddings built from or "
     "converted from the same parts does not change the others beyond what they share. Norms, vocabularies or "
     "storages whose sizes or types do not fit are always refused.",
     ["histories", "fault_sequences", "inputs"],
     "every history of operations with failures and interruptions",
     "The tests perform single operations; no test chains changes, failures, saves and loads.",
     [EMB, NORMS, META, IO, SUB, ND, PQ],
     mech(("norms and metadata setters, __init__", EMB), ("bucket_to_explicit", EMB), ("to_explicit", SUB),
          ("write / load_finalfusion", EMB)),
     ["all attributes of all live embeddings after every operation", "all files decoded after the history"],
     note="Seeded search over histories of 3 to 16 operations with disk faults and interrupts; oracle is a small "
          "executable model that applies completed operations only.",
     technique="seeded operation histories with faults and interrupts against an executable reference model")

prop("C12", "Conversions carry every word and every vector",
     "When writing word2vec, text, text-dims or fastText files, or converting between these and finalfusion files with "
     "the library or the conversion tool, is acknowledged, the file holds every word, in order, with its un-normalised "
     "vector, and loads as such; words and vectors survive any chain of such conversions, and subword vectors survive as "
     "long as the formats can express them; a vocabulary that fastText cannot express is refused. Separators and line "
     "ends are those asked for and documented. This holds for every word that a format can express (no ASCII whitespace, line break or NUL), every storage, with and without norms, for zero vectors, "
     "in any locale, and however the operating system splits reads and writes.",
     ["inputs", "configurations", "fault_sequences"],
     "all embeddings, chains of formats and partitions of the I/O",
     "The tests convert a few example files once on an undisturbed disk.",
     [W2V, TXT, FT, EMB, NORMS, S + "scripts/convert.py", S + "scripts/util.py"],
     mech(("write_word2vec / load_word2vec", W2V), ("write_text(_dims) / load_text(_dims)", TXT),
          ("write_fasttext / load_fasttext", FT), ("Format", S + "scripts/util.py")),
     ["bytes of each file read by an independent parser", "embeddings loaded after each hop"],
     note="Seeded search over embeddings x chains x partial I/O. Words without ASCII whitespace; single precision tolerance "
          "since formats store un-normalised vectors.",
     technique="chains of conversions over a disk that splits reads and writes, independent parsers as oracle")

prop("C13", "Command line results are right and depend on nothing but the inputs",
     "The command line tools (select, similar, analogy, convert, bucket-to-explicit) give the documented result for every "
     "input: selected words once each, in input order and with unchanged vectors; neighbours and analogies with their "
     "similarities, leaving out exactly the query words unless included; conversions with the same words and vectors. "
     "The result is the same whatever the interpreter's hash seed, "
     "however reads and writes are split, and whether a list comes from a file or standard input. If an input "
     "cannot be read, an output cannot be written, or a word to select has no embedding and unknown words are not ignored, "
     "the tool exits with non-zero status, and a selection that fails because of its inputs leaves the output untouched. "
     "Arguments that are not among the documented choices are refused without touching anything, options work in their "
     "short and long form and with their documented defaults, and skipped words are reported exactly if that was asked for. "
     "Malformed UTF-8 in embeddings of other formats is refused unless lossy decoding was asked for.",
     ["inputs", "configurations", "fault_sequences"],
     "all inputs, options, hash seeds, I/O partitions and injected read or write errors",
     "The integration tests run each tool once on example files; hash order, splitting and errors never vary.",
     SC + [EMB, S + "storage/__init__.py"],
     mech(("select", SC[3]), ("similar", SC[4]), ("analogy", SC[0]), ("convert", SC[2]),
          ("bucket_to_explicit", SC[1])),
     ["exit status, standard output and output file of each tool"],
     note="Seeded search; each run executes the tool in two environments with different hash seeds and I/O partitions, "
          "results judged against a reference and compared with each other.",
     technique="tool runs in two simulated environments (hash seed, I/O splitting, stdin, faults) judged by a reference")

prop("C14", "A damaged file is refused or loads as exactly what its bytes say",
     "Loading a file in which bits or bytes changed, fields took extreme values, blocks were lost, repeated or shifted, or "
     "chunks were exchanged, repeated or dropped either raises an ordinary exception or returns exactly what the damaged "
     "bytes state under the format's rules. It never crashes the process, runs without bound, returns contents "
     "that the file does not hold, or leaks descriptors, and the intact file loads as before afterwards.",
     ["inputs", "fault_sequences"],
     "all kinds and positions of damage to files of every format and every loader",
     "The tests load two hand-made malformed files.",
     [EMB, IO, NORMS, META, ND, PQ, VOC, SUB, SIM, VOI, STI, W2V, TXT, FT] + IDX,
     mech(("_read_chunk_header, find_chunk", IO), ("read_chunk / mmap_chunk", ND), ("read_chunk", PQ),
          ("read_chunk and sanity checks", SUB), ("load_fasttext", FT), ("load_word2vec", W2V)),
     ["outcome of each loader, contents returned compared with a permissive reference reader"],
     note="Seeded search over damage x format x loader with bounded memory. Formats have no checksums: a changed number "
          "is what the file says. Chunk lengths are only binding where a chunk is skipped.",
     technique="planned disk corruption behind partial reads and a memory limit, permissive reference reader as oracle")

prop("C15", "Subword units and their indices follow the specification",
     "For every word and every n-gram range, the n-grams of a word and their bucket or explicit indices are those of the "
     "finalfusion and fastText specifications.",
     ["inputs"], "all words and n-gram parameters",
     "The tests check a few words.",
     [SUB] + IDX, mech(("NGrams", IDX[2]), ("FinalfusionHashIndexer / FastTextIndexer", IDX[1]),
                       ("ExplicitIndexer", IDX[0])),
     ["subword_indices of a word"],
     na="Pure function of its arguments: no schedule, I/O, time, randomness or fault can influence it, so a simulator has "
        "nothing to decide. Its value on generated words is used as an oracle inside C09, C12 and C14, where a wrong "
        "index does surface, but no check claims it for all inputs.")

prop("C16", "Files are the same on hosts of either byte order",
     "A file written on a host of one byte order loads identically on a host of the other.",
     ["configurations"], "little and big endian hosts",
     "The tests run on one host.",
     [IO, ND, PQ, NORMS, SUB], mech(("_serialize_array_as_le / _read_array_as_native", IO)),
     ["bytes written, arrays read"],
     na="The byte order of the host is fixed by the interpreter and the compiled extensions here; no big endian "
        "interpreter or emulator is installed and simulating one would replace the code under test. Foreign-endian "
        "arrays in memory are covered by C01.")

prop("C17", "Memory mapping leaves the matrix in the file",
     "Loading a finalfusion file with memory mapping, by any loader that offers it or by a command line tool with --mmap, "
     "maps the matrix or the quantized codes of the file that was opened instead of reading them into memory, whatever else the file holds: "
     "the load reads no more of them than buffering of the parts around them takes, rows overwritten in "
     "the file are seen by embeddings that are already loaded, and embeddings loaded without memory mapping keep what they "
     "read and no mapping. A memory mapped matrix is read-only: attempts to write to it or to the vectors it returns "
     "raise, and no attempt changes the file or what lookups return. A mapping that the operating system refuses is an "
     "error of the load. Mapping and descriptor are gone once the last embeddings using them are dropped.",
     ["histories", "fault_sequences", "inputs"],
     "all histories of loads, in-place changes, attempted writes and drops on one file, and every split or refusal of the "
     "system calls in them",
     "The tests map a small file once and compare its contents; they cannot tell mapping from reading and never change "
     "the file or write to the storage.",
     [EMB, ND, PQ, STI, S + "scripts/util.py"] + SC,
     mech(("mmap_chunk", ND), ("mmap_chunk", PQ), ("load_storage", STI), ("load_finalfusion", EMB),
          ("Format.load", S + "scripts/util.py")),
     ["system calls on the file", "rows returned after the file changed", "exceptions and file bytes after attempted writes",
      "/proc/self/maps and open descriptors"],
     note="Seeded search over histories of loads, changes, writes and drops on matrices of megabytes. Reading up to half "
          "of the matrix counts as buffering; nothing is said about resident pages.",
     technique="recorded reads of a simulated disk that changes under mapped embeddings, refused mappings, reference rows as oracle")
