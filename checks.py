"""What each check runs: harness, parameters (every combination is one configuration) and the bounds they set.
p: quick values, pt: values that replace them in the thorough tier, tier='thorough': thorough only."""
T = list(range(14))
COMMON_ASSUMPTIONS = [
    "64-bit little-endian Linux, clang 18's IR for the sources of /repo at -O1 level with NDEBUG (as in the tested build)",
    "libstdc++ containers and strings are executed as they are; streams, files, allocation, exceptions, std::filesystem and the C library calls are a model (model/, engine/handlers.cpp), compared with native runs of sampled paths on every run",
    "the executor's rewriting of terms (engine/expr.cpp) preserves meaning; every model Z3 returns is re-evaluated and every counterexample is replayed natively before it is reported",
]
CHECKS = {
 'C01': dict(jobs=[dict(h='c01', p=dict(t=T), pt=dict(total=12, nd=4), time_t=600)],
   reach=['stream', 'file', 'member', 'sequence'],
   bounds="all 14 element types; every shape of 0-3 dimensions of 0-2 with at most 8 elements (4 for strings; thorough: 4 dimensions, 12 elements); both orders; little, big and native byte order; stream, file, member functions and two tensors in one stream; every bit pattern of every element (strings: up to 2 free characters and every length up to 2 in two of the elements).",
   outside="larger shapes and longer strings."),
 'C02': dict(jobs=[dict(h='c02', p=dict(mode=0, t=T)), dict(h='c02', p=dict(mode=1, nd=1), pt=dict(nd=[1, 2])), dict(h='c02', p=dict(mode=2)), dict(h='c02', p=dict(mode=2, n=2, **{'from': [83, 5000, 10920, 21815, 21835]})), dict(h='c02', p=dict(mode=3))],
   reach=['stream', 'file', 'dims', 'long', 'refused', 'custom'],
   bounds="payloads: as C01 (shapes of 0-3 dimensions of 0-2, 8 elements), every bit pattern; dimensions: every 64-bit value of one dimension (thorough: of two); 0-39 dimensions, and 83, 5000, 10920, 21815, 21835 and the next, which cover one- and two-byte lengths and the limit of version 1; two custom tensor types with up to 6 elements.",
   outside="more elements; other dimension counts."),
 'C03': dict(jobs=[dict(h='c03', p=dict(mode=[0, 1], t=T), time=200), dict(h='c03', p=dict(mode=2, nd=1), pt=dict(nd=[1, 2])), dict(h='c03', p=dict(mode=3), pt=dict(n=6), insts_t=2000000000)],
   reach=['stream', 'file', 'digits', 'long'],
   bounds="all 14 types, both byte orders, both storage orders, versions 1 and 2, shapes of 0-3 dimensions of 0-2 with at most 8 elements, every payload; six key orders, three spacings, with and without final comma and newline, five paddings; every decimal dimension of up to 20 digits that fits 64 bits; header lengths up to 70000 (thorough: 16.8 million, so that all four length bytes count); strings of 0-3 characters.",
   outside="larger payloads; other spellings of the dictionary (double quotes, Python 2 long suffixes) which the library refuses."),
 'C04': dict(jobs=[dict(h='c04', p=dict(mode=0, base=[0, 1, 2, 3, 4]), pt=dict(w=[2, 3])), dict(h='c04', p=dict(mode=1, base=[0, 1, 2, 3, 4])), dict(h='c04', p=dict(mode=2, ver=[1, 2]), pt=dict(w=[1, 2])), dict(h='c04', p=dict(mode=3, t=T)), dict(h='c04', p=dict(mode=[4, 5, 6]))],
   reach=['accepted', 'refused', 'incomplete', 'accepted header', 'refused header', 'prefix', 'empty', 'overflow', 'paths', 'short'],
   bounds="five dictionaries with any window of 2 (thorough: 3) arbitrary bytes at any position and with any contiguous piece missing; any byte of magic, version and length arbitrary; every truncation point of a file of each type; shapes whose element count or size overflows 64 bits; up to 4 arbitrary bytes as a dictionary; missing files.",
   outside="damage at several distant places; wider windows."),
 'C05': dict(jobs=[dict(h='c05', p=dict(mode=[0, 1, 2], t=T))],
   reach=['peek', 'archive peek', 'types'],
   bounds="all 14 stored types against all 14 requested types, through stream, file, archive in memory and on disk; shapes of 0-3 dimensions of 0-2 (8 elements); all byte and storage orders; every element value of stored data.",
   outside="larger shapes; compressed entries have fixed contents here."),
 'C06': dict(jobs=[dict(h='c06', p=dict(mode=0, nd=[0, 1, 2])), dict(h='c06', p=dict(mode=0, nd=3, f=[0, 1], part=[0, 1], lim=2), pt=dict(lim=3)), dict(h='c06', p=dict(mode=[1, 2], nd=[0, 1, 2, 3]), pt=dict(nd=[0, 1, 2, 3, 4])), dict(h='c06', p=dict(mode=[3, 4]))],
   reach=['in range', 'out of range', 'unsigned in range', 'unsigned out of range', 'bijection', 'large', 'overflow', 'fits'],
   bounds="every 32-bit signed and every 64-bit unsigned index, for index lists of 0 to ndim+1 entries, on all shapes of 0-3 dimensions of 0-3 (three dimensions: 0-2 for signed indices in the quick tier), both orders; four shapes with up to 3e9 elements; two- and three-dimensional shapes around the 64-bit limit of the element count.",
   outside="more dimensions; element types other than int32 (the templates do not depend on it)."),
 'C07': dict(jobs=[dict(h='c07', p=dict(mode=[0, 1]), pt=dict(n=6))], reach=['codes', 'unicode', 'known', 'unknown'],
   bounds="all 13 fixed-size types and the Unicode type, all byte orders; every code string of 0-4 (thorough: 5) arbitrary bytes, each before and after valid conversions.",
   outside="longer code strings."),
 'C08': dict(jobs=[dict(h='c08', p=dict(mode=0), pt=dict(len=[1, 2, 3])), dict(h='c08', p=dict(mode=1, n=[0, 1, 2]), pt=dict(n=[0, 1, 2, 3])), dict(h='c08', p=dict(mode=2, t=T, m=[0, 1])), dict(h='c08', p=dict(mode=3), pt=dict(deep=1)), dict(h='c08', p=dict(mode=4, n=300, m=[0, 1])), dict(h='c08', p=dict(mode=4, n=3, sz=66000, m=[0, 1])), dict(h='c08', tier='thorough', p=dict(mode=4, n=[1000, 5000], m=[0, 1]), time_t=900), dict(h='c08', tier='thorough', p=dict(mode=4, n=2, sz=[1048576, 2200000], m=[0, 1]), time_t=900)],
   reach=['present', 'absent', 'several', 'none', 'stored types', 'deflated types', 'odd names', 'many'],
   bounds="one entry under every 2-byte name, queried with every name of 0-3 bytes with and without .npy; 0-2 (thorough: 3) entries with every 1-byte name; names holding .npy and parts of it before their end, with up to 3 arbitrary bytes around, and of about 256 bytes (thorough: 1000 and 65531); 300 entries (thorough: 5000); entries of 66000 bytes (thorough: 2 MB); four entries of every type in both methods, media and all byte orders; every element value of stored entries.",
   outside="longer names and larger entries; compressed entries have fixed contents (their codec is C13)."),
 'C09': dict(jobs=[dict(h='c09', p=dict(mode=0), pt=dict(n=[1, 2, 3])), dict(h='c09', p=dict(mode=1, kind=[0, 1, 2])), dict(h='c09', p=dict(mode=2, what=[0, 1, 2], m=[0, 1])), dict(h='c09', p=dict(mode=2, what=1, len=65523)), dict(h='c09', tier='thorough', p=dict(mode=2, what=2, sz=[1048448, 16777087], m=[0, 1]), time_t=900)], reach=['stored', 'deflated', 'large'],
   bounds="two stored entries with every 2-byte name, with and without suffix, every element value, both byte orders and media; 254-257 entries, names of 250-260 and 65523-65531 bytes and entries of about 65535 bytes (thorough: 2^20 and 2^24) in both methods; two compressed entries of 0 to 300 bytes of three kinds of content with every name of 1-2 bytes; judged by an independent reader of the ZIP and DEFLATE formats that follows every field.",
   outside="other numbers of entries (sizes beyond 32 bits: C19)."),
 'C10': dict(jobs=[dict(h='c10', p=dict(mode=[0, 1, 2, 3, 4, 5], file=[0, 1]))], reach=['descriptive', 'zip64', 'unneeded zip64', 'extra fields', 'order', 'names', 'empty'],
   bounds="archives of 0-3 entries: every value of versions (up to 4.5), flags, times and attributes; all eight combinations of ZIP64 forms in local and central records on two entries; ZIP64 fields longer than needed; other extra fields with every tag and 0-3 bytes of any content before and after, comments of up to 2 bytes; every directory order of three entries; names of 1-3 arbitrary bytes; every payload byte.",
   outside="the forms the statement says are refused; multi-disk archives."),
 'C11': dict(jobs=[dict(h='c11', p=dict(mode=0, k=[0, 2, 3], parts=8, part=list(range(8)))), dict(h='c11', p=dict(mode=0, k=4, parts=32, part=list(range(32)))), dict(h='c11', p=dict(mode=0, k=1, parts=64, part=list(range(64))), tier='thorough', qtime_t=60), dict(h='c11', p=dict(mode=1, k=[0, 1, 2, 3], file=[0, 1])), dict(h='c11', time=200, p=dict(mode=2, k=0, field=list(range(8)))), dict(h='c11', p=dict(mode=2, k=2, field=0)), dict(h='c11', p=dict(mode=2, k=[3, 4], field=0, w=1)), dict(h='c11', p=dict(mode=2, k=3, field=0, w=2), tier='thorough'), dict(h='c11', p=dict(mode=3, field=[0, 2])), dict(h='c11', p=dict(mode=3, field=1, part=list(range(8)))), dict(h='c11', p=dict(mode=4, file=[0, 1]))],
   reach=['returned', 'refused', 'not opened', 'cut', 'adjacent', 'both', 'arbitrary'],
   bounds="four archives (stored, ZIP64 with extra fields, stored blocks, fixed Huffman codes; thorough: also one compressed by the library) with any one byte anywhere changed to any value; every truncation point for every content; any four adjacent bytes of the data, checksums, sizes, names or offset of either of two entries changed, for every content of the entries; both copies of checksum, size or method changed alike; up to 23 arbitrary bytes.",
   outside="damage at several places other than these; larger archives."),
 'C12': dict(jobs=[dict(h='c12', p=dict(mode=[0, 1, 2, 3])), dict(h='c12', p=dict(mode=4, lo=2, hi=1100), insts=4000000000), dict(h='c12', p=dict(mode=4, lo=1100, hi=2200), insts=4000000000), dict(h='c12', p=dict(mode=4, lo=2200, hi=3300), insts=4000000000), dict(h='c12', p=dict(mode=4, lo=3300, hi=4400), insts=4000000000), dict(h='c12', p=dict(mode=4, lo=1024, step=1024, hi=70000), insts=4000000000), dict(h='c12', tier='thorough', p=dict(mode=4, lo=4400, hi=7000), insts=4000000000), dict(h='c12', p=dict(mode=5, k=list(range(4, 21))), pt=dict(k=list(range(4, 25))), insts=4000000000, time_t=900)], reach=['sequences', 'states', 'long', 'bursts', 'lengths', 'powers'],
   bounds="every sequence of 0-40 bytes; every 32-bit state followed by every sequence of 0-8 bytes (which by induction covers every length fed in any pieces); lengths up to 65537 with 3-9 free bytes at four places; every length up to 4400 (thorough: 7000), every multiple of 1024 up to 70000 and every length within 2 of a power of two up to 2^20 (thorough: 2^24), ending in two free bytes; every burst of up to 32 bits at every position of every 12-byte sequence.",
   outside="nothing beyond the induction step, which is an argument and not a query."),
 'C13': dict(jobs=[dict(h='c13', tables=1, p=dict(mode=0, n=2)), dict(h='c13', tables=1, p=dict(mode=1, n=12, kind=[1, 2])), dict(h='c13', tables=1, p=dict(mode=2, base=[0, 1, 2, 3, 7, 8, 9, 10, 11, 12], kind=[0, 1, 2, 3]), insts=4000000000), dict(h='c13', tables=1, p=dict(mode=2, base=[4, 5], kind=0, d=[1, 2, 3]), insts=4000000000), dict(h='c13', tables=1, p=dict(mode=2, base=4, kind=[1, 2], d=2), insts=4000000000),
    dict(h='c13', tables=1, p=dict(mode=3, n=2)), dict(h='c13', tables=1, p=dict(mode=4, k=[0, 1], w=1)), dict(h='c13', tables=1, p=dict(mode=5, sub=0, bits=3)), dict(h='c13', tables=1, p=dict(mode=5, sub=1, bits=5)), dict(h='c13', tables=1, p=dict(mode=6, syms=[1, 2])), dict(h='c13', tables=1, p=dict(mode=6, syms=3, nd=[1, 2])), dict(h='c13', tables=1, p=dict(mode=7, base=[32768, 33000, 32520, 65600], count=2, step=9), insts=2000000000),
    dict(h='c13', tables=1, tier='thorough', p=dict(mode=0, n=3), time_t=800), dict(h='c13', tables=1, tier='thorough', p=dict(mode=1, n=[20, 40], kind=[0, 1, 2, 3], step=4), time_t=800), dict(h='c13', tables=1, tier='thorough', p=dict(mode=2, base=[4, 5, 6], kind=[0, 1, 2, 3], d=[0, 1, 2, 3, 4]), insts_t=20000000000, time_t=800), dict(h='c13', tables=1, tier='thorough', p=dict(mode=3, n=3), time_t=800), dict(h='c13', tables=1, tier='thorough', p=dict(mode=4, k=[2, 3], w=1, lo=[0, 4, 8, 12, 16, 20, 24], hi=200, step=28), time_t=800), dict(h='c13', tables=1, tier='thorough', p=dict(mode=4, k=[0, 1], w=2), time_t=800), dict(h='c13', tables=1, tier='thorough', p=dict(mode=5, sub=1, bits=9, tail=30), time_t=400), dict(h='c13', tables=1, tier='thorough', p=dict(mode=6, syms=[3, 4], nd=[1, 2], bits=12), time_t=800), dict(h='c13', tables=1, tier='thorough', p=dict(mode=7, base=[32768, 65600, 98400, 33100], count=40, step=7), insts_t=2000000000, time_t=800)],
   reach=['short', 'within', 'around', 'valid', 'incomplete', 'invalid', 'window'],
   bounds="round trip: every sequence of 0-2 (thorough: 3) bytes; 12 (thorough: also 20 and 40) repeating or random bytes with any one byte anywhere free; four kinds of contents of 257, 4096, 31744, 32768, 33025, 65535, 65536, 85196, 98304, 131072 bytes and two fewer to two more, and around 1 MiB and 2 MiB (thorough: 3 MiB). Decompression against an independent decoder: every sequence of 2 (thorough: 3) bytes; a fixed-code and a stored stream with any one byte (thorough: two; also streams of the library with dynamic codes) anywhere free and then cut; every distance code and every code above 279 of the fixed codes; blocks with any code lengths for 1-3 symbols and any 8 bits after; a match of any of ten lengths at any of twelve distances around the end of the 32 KiB window. No allocation beyond 1 MiB for short invalid streams, no access out of bounds.",
   outside="round trips of longer free contents (each free byte multiplies the paths through the compressor's hash chains); several free bytes in streams with dynamic codes."),
 'C14': dict(jobs=[dict(h='c14', p=dict(n=3, m=[0, 1], file=[0, 1])), dict(h='c14', p=dict(n=3, bad=1, file=[0, 1])), dict(h='c14', tier='thorough', p=dict(n=4, m=[0, 1], file=[0, 1], first=[0, 1, 2, 3, 4, 5, 6]), time_t=600)],
   reach=['written', 'write after close', 'failing tensor', 'failing name', 'failing memory', 'closed twice', 'destroyed'],
   bounds="every sequence of 3 (thorough: 4) calls out of: write (any one-byte name, any contents), write of another type with suffix, write of a tensor whose save throws before, after or amid its bytes (a std::exception or not), write under a name of 65536 bytes, write with memory exhausted, close, str; then close or destruction; in memory and on disk, stored and (fixed contents) compressed, every unsupported method",
   outside="longer sequences; a full disk (C16)."),
 'C15': dict(jobs=[dict(h='c15', p=dict(n=2, d=[0, 1, 2, 3, 4, 5, 6, 7, 8, 9], file=[0, 1])), dict(h='c15', p=dict(n=2, d=[2, 3], file=[0, 1], at=0)), dict(h='c15', p=dict(n=3, d=2, file=[0, 1], first=[2, 4, 12, 13, 14, 16]), pt=dict(first=list(range(21)), d=[0, 2, 4, 5, 6, 9]), time_t=600)],
   reach=['history', 'read after failure'],
   bounds="every sequence of 2 operations (3 for some damage and first operations; thorough: 3 for all first operations and six kinds of damage) out of: reading with the right and with a wrong type, peek, contains on four entries and a missing name, keys; entries stored and compressed, with every payload; ten kinds of damage to one entry (contents, signature, offset beyond the end, size beyond the end, invalid compression, invalid or truncated NPY data, names that disagree), symbolic where it is a byte; in memory and on disk",
   outside="longer sequences; several damaged entries."),
 'C16': dict(jobs=[dict(h='c16', p=dict(mode=0, fault=[0, 1], t=[1, 4, 9, 11, 12, 13])), dict(h='c16', p=dict(mode=0, big=5000, fault=0, step=97, t=1), pt=dict(step=7)), dict(h='c16', p=dict(mode=0, big=5000, fault=0, step=397, t=3), pt=dict(step=29)), dict(h='c16', p=dict(mode=0, big=1200, fault=0, step=397, t=13), pt=dict(step=29)), dict(h='c16', p=dict(mode=0, big=5000, fault=1, t=[1, 3, 13])), dict(h='c16', p=dict(mode=1, fault=[0, 1], m=[0, 1])), dict(h='c16', p=dict(mode=1, big=9000, step=97, fault=0, m=[0, 1]), pt=dict(step=7)), dict(h='c16', p=dict(mode=1, big=9000, fault=1, m=[0, 1])), dict(h='c16', p=dict(mode=3, fault=1, writes=24, m=[0, 1], sz=[3, 100])), dict(h='c16', p=dict(mode=3, fault=0, step=797, m=[0, 1]), pt=dict(step=97)), dict(h='c16', p=dict(mode=2))],
   reach=['reported', 'saved', 'archive reported', 'archive saved', 'directory reported', 'directory saved', 'paths'],
   bounds="single tensors of six types and archives (stored and compressed, every sequence of three calls of write and close, closing last) of about 130-500 bytes with the disk full after every number of bytes, and of 9-40 KB (beyond the stream buffer) at every 97th or 397th (thorough: 7th or 29th) number of bytes; archives of 50 entries whose directory exceeds the stream buffer; any one of the first six (24 for those) writes to the file failing while the others work; ten operations on three kinds of paths that cannot be opened",
   outside="other sizes; an archive writer destroyed without close cannot report anything and is not required to."),
 'C17': dict(jobs=[dict(h='c17', p=dict(mode=0, t=T)), dict(h='c17', p=dict(mode=1), pt=dict(n=6)), dict(h='c17', p=dict(mode=2, t=[1, 9, 13], ver=[1, 2]), pt=dict(w=2)), dict(h='c17', p=dict(mode=3)), dict(h='c17', p=dict(mode=4, parts=64, part=list(range(1, 64, 4))), pt=dict(part=list(range(64))))],
   reach=['tensors', 'codes', 'accepted', 'refused', 'archives', 'damaged', 'not opened'],
   bounds="no store to memory that existed before the operations (globals, static locals, tables, heap) on any path of: saving, loading, peeking, copying and indexing tensors of all types; all type code strings of 0-4 bytes; NPY data with any one byte arbitrary (thorough: two) or cut; writing and reading archives in both methods and media, with failing calls; archives with any one byte arbitrary (quick: a quarter of the positions)",
   outside="state shared through atomics or locks is accepted when its accesses are ordered; the C++ run time itself."),
 'C18': dict(jobs=[dict(h='c18', p=dict(mode=0, t=[0, 3, 5, 6, 9, 10, 11, 12])), dict(h='c18', p=dict(mode=0, t=13, nd=1)), dict(h='c18', p=dict(mode=[1, 2, 3])), dict(h='c18', tier='thorough', p=dict(mode=0, t=T, nd=3), time_t=600)], reach=['tensor', 'integers', 'floats', 'classes'],
   bounds="tensors of nine types (thorough: all 14) and every shape of 0-2 (thorough: 3) dimensions of 0-2 with at most 6 elements, both orders, every element value; filling by six ways, copying, assigning (onto another shape, onto itself) and moving; every wrong 64-bit item count and every wrong source of 0-8 items; booleans from every value of twelve integer types, float and double, bool, boolean, pointers, enumerations and classes",
   outside="larger tensors."),
 'C19': dict(jobs=[dict(h='c19', bigalloc=17179869183, p=dict(mode=0, p=list(range(14)), how=[0, 2])), dict(h='c19', bigalloc=17179869183, p=dict(mode=0, p=[0, 3, 6, 8, 12], how=1), pt=dict(p=list(range(14)))), dict(h='c19', p=dict(mode=1, which=[0, 1], both=[0, 1])), dict(h='c19', bigalloc=17179869183, samples=0, p=dict(mode=2, size=list(range(8)), method=[0, 1])), dict(h='c19', bigalloc=17179869183, samples=0, p=dict(mode=3, size=list(range(9)), method=0, pre=[0, 1])), dict(h='c19', bigalloc=17179869183, samples=0, p=dict(mode=3, size=list(range(9)), method=1, m=[0, 1, 2], pre=[0, 1])), dict(h='c19', bigalloc=17179869183, p=dict(mode=4)), dict(h='c19', p=dict(mode=[6, 7])), dict(h='c19', p=dict(mode=5, name=[65534, 65535, 65536, 65537, 70000])), dict(h='c19', samples=0, p=dict(mode=5, n=[65535, 65536]), insts=40000000000, time=300), dict(h='c19', tier='thorough', samples=0, p=dict(mode=5, n=65537), insts_t=40000000000, time_t=600), dict(h='c19b', bigalloc=17179869183, p={})],
   reach=['far', 'wrong offset', 'beyond the end', 'equal sizes', 'other sizes', 'large entry', 'written', 'refused', 'names', 'entries', 'checksum'],
   bounds="reading the directory: every 64-bit compressed size, uncompressed size and offset in each of the eight ZIP64 forms, with and without another extra field; writing it: every 64-bit value of the three; writing an entry: every uncompressed size below 8 GiB (by the library's own functions on a string of that length; codec and checksum replaced by stubs) and whole archives with entries of 9 sizes from 2 GiB to 6 GiB around the limits, stored and compressed to 3 sizes, between small ones, checked byte by byte and read back; files with an entry at 14 places up to 9 GiB, with every single bit of the offset wrong, and with every offset beyond the end; entries of 8 sizes from 2.25 to 6 GiB read from disk; every pair of 64-bit sizes in local and central header that differ; the checksum over every length below 8 GiB; 65535 and 65536 (thorough: 65537) entries and names of 65534-65537 and 70000 bytes.",
   outside="archives whose directory lies beyond 4 GiB are refused, not written; ZIP64 end records are not read (other archives of that kind are refused); where an implementation keeps its entries under other names than m_entries/write_file, the parts on every 64-bit value are skipped and only the listed sizes remain."),
 'C20': dict(jobs=[dict(h='c20', p=dict(mode=0, t=[1, 9, 13], ver=1, step=6, off=[0, 3]), pt=dict(ver=[1, 2], file=[0, 1], off=[0, 1, 2, 3, 4, 5])), dict(h='c20', p=dict(mode=1, plain=1, step=3, parts=32, part=list(range(31))), pt=dict(step=1, file=[0, 1])), dict(h='c20', p=dict(mode=1, plain=1, step=3, parts=64, part=[62, 63]), pt=dict(step=1, file=[0, 1]), time=120), dict(h='c20', p=dict(mode=1, step=5, parts=16, part=[1, 4, 7, 9]), pt=dict(step=1, file=[0, 1], parts=64, part=list(range(64)))), dict(h='c20', p=dict(mode=2)), dict(h='c20', p=dict(mode=3)), dict(h='c20', p=dict(mode=4, k=[0, 1]), pt=dict(k=[0, 1])), dict(h='c20', p=dict(mode=4, k=2, step=11), pt=dict(step=1)), dict(h='c20', p=dict(mode=4, k=3, n=1), pt=dict(n=2)), dict(h='c20', p=dict(mode=5, k=[0, 1], t=[1, 9, 13], n=60)), dict(h='c20', p=dict(mode=5, k=[2, 3, 4, 5, 6, 7], n=150))],
   reach=['accepted', 'refused', 'opened', 'not opened', 'cut', 'writers', 'invalid stream', 'valid stream', 'memory'],
   bounds="heap before and after: loading and peeking NPY data with any one byte arbitrary and 1, 8 or 15 bytes missing; archives with any one byte arbitrary (quick: every second position) and cut anywhere; writers whose tensors, names, methods, paths or disks fail; compressed streams with any one byte arbitrary and cut, and all streams of 2 bytes; and eight scenarios (saving, loading, writing and reading archives, compressing) with any one of the first 60-150 requests for memory failing",
   outside="several failing requests in one run."),
}
NOT_APPLICABLE = {}
