"""technique and level_note per property, for MANIFEST.json"""
S = "Assurance is that of the executions observed; the oracle is trusted. "
T = {
 "C01": ("sanitizer-instrumented execution (ASan+UBSan, table-bounds hook, hang watchdog) of random API histories and hostile inputs",
         "Exploration: no report on any generated history. " + S + "Red zones cannot see an overrun from one live object into another; malloc failure is not injected."),
 "C02": ("MemorySanitizer execution plus differential runs under poisoned heaps, other orders and other process histories",
         "Exploration: MSan reports reads of uninitialised memory, the differential oracle compares bytes and counters. " + S),
 "C03": ("resource accounting monitor (heap bytes, descriptors, mappings, cwd) around create/use/destroy cycles, with LeakSanitizer",
         "Exploration: sanitizer allocator statistics are compared before and after a warmed-up cycle. " + S),
 "C04": ("differential monitor: one-piece run against chunked runs of the same input", "Exploration: exact comparison of bytes and counters, all single split points for short inputs. " + S),
 "C05": ("differential monitor over output modes with exactly-once byte accounting", "Exploration: concatenated deliveries are compared with a one-shot run. " + S),
 "C06": ("differential monitor: abandoned-and-initialised instance against a fresh one", "Exploration: exact comparison of bytes and counters. " + S),
 "C07": ("ThreadSanitizer execution of parallel instances plus interleaving differential", "Exploration: TSan reports races on executed pairs of accesses; schedules are those observed under jitter. " + S),
 "C08": ("online comparison with an independent UTF reference, exhaustive over scalar values", "Exploration: every scalar value in every form, and generated ill-formed sequences, judged by a reference decoder. " + S),
 "C09": ("model-based oracle: longest match over the table source, compared with the running codec", "Exploration: every entry of every table-only codec plus random mixtures. " + S),
 "C10": ("model-based oracle over generated tables compiled by the real compiler", "Exploration: generated tables; the model is an independent matcher. " + S),
 "C11": ("model-based oracle for fallback order and error counters", "Exploration: reference interpreter over table codecs. " + S),
 "C12": ("differential monitor: piped conversion against staged conversion", "Exploration: exact comparison of bytes and error counts. " + S),
 "C13": ("online comparison with Python unicodedata", "Exploration: all assigned characters of the table's Unicode version and generated sequences. " + S),
 "C14": ("online comparison with Python's codecs and round-trip monitor", "Exploration: every one and two byte code, with a committed deviation list. " + S),
 "C15": ("round-trip and notation monitor", "Exploration: generated text over all scalar values; the notation is recomputed independently. " + S),
 "C16": ("model-based oracle for line endings", "Exploration: exhaustive over short strings of CR, LF and text, random beyond. " + S),
 "C17": ("online comparison with East Asian Width data and prefix model", "Exploration: all assigned characters. " + S),
 "C18": ("round-trip and conservation monitor", "Exploration: generated strings, phases in between and chunkings. " + S),
 "C19": ("model-based oracles for the editing codecs", "Exploration: independent models of each codec, argument fuzzing for refusals. " + S),
 "C20": ("exhaustive comparison of filter and scorer decisions with an independent range table", "Exploration: every code point for every filter. " + S),
 "C21": ("model-based oracle for parse, pack and edit", "Exploration: generated conversion strings. " + S),
 "C22": ("consistency monitor over lists, checks, aliases and creation", "Exploration: every listed name and alias. " + S),
 "C23": ("model-based trace oracle (maps) over random operation sequences", "Exploration: recorded operation logs replayed on a model. " + S),
 "C24": ("differential monitor: command line tools against the library", "Exploration: generated conversions and files. " + S),
 "C25": ("fault injection by an interposer at every call during creation, with resource accounting", "Fault enumeration: each open/mmap/dlopen/... call of the creation of each conversion fails in turn. " + S),
 "C26": ("online comparison with independent reference decoders and encoders (GB18030, ISO-2022-JP, EBCDIC, Big5 user areas)",
         "Exploration: every code, every mode switch in generated mixtures, malformed sequences, chunked. The references use Python's own tables; the IBM pages a frozen table checked once against Java's. " + S),
 "C27": ("crash and fault injection at every system call of bsdconv -i (Linux syscall user dispatch), observing the directory afterwards",
         "Fault enumeration: killed before, after and in the middle of each call, each call failing in turn, short reads and writes. The process dies, not the machine: durability after a power loss is not judged. " + S),
 "C28": ("online comparison with Python's Unicode database, and with frozen transliteration tables by longest match", "Exploration: every code point, every entry, generated mixtures. " + S),
 "C29": ("model-based oracle for control sequences, and comparison of log files with the data that passed", "Exploration: generated sequences in every cut, logs of one to three instances. " + S),
 "C30": ("heap accounting by the sanitizer's allocator while one piece is fed over and over (metamorphic: no growth)", "Exploration: every codec, directed and random pipelines, 64 pieces each (thorough 1024). " + S),
}
