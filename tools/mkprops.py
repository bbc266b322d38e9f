#!/usr/bin/env python3
# Regenerates /verif/properties.jsonl (kept as code so that the long strings stay readable).
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

p("C01", "NPY save then load gives back the same tensor",
  "For every supported element type, every shape (including scalars and empty tensors), either storage order and either byte order, loading the bytes produced by saving a tensor yields a tensor with the same element type, shape, storage order and bit-identical elements. For Unicode tensors every string is recovered exactly, except for trailing NUL characters, which the format cannot represent. The same holds through a file on disk and through an in-memory stream.",
  ["inputs", "configurations"], "all element bit patterns, all element types, both byte orders, both storage orders, all shapes",
  "The tests save and load one fixed 5x2x5 ramp (plus a scalar and a vector) per type; byte order is varied for one type only, and NaN payloads, sign bits, embedded NULs, empty and many-dimensional shapes never appear.",
  ["include/npy/npy.h", "src/dtype.cpp", "src/npy.cpp", "src/tensor.cpp"],
  [("write_npy_header/save", "include/npy/npy.h"), ("write_values/read_values", "src/dtype.cpp"), ("header_info parser", "src/npy.cpp")],
  ["npy::save(stream|path)", "npy::load(stream|path)", "npy::tensor accessors"])

p("C02", "Saved NPY bytes follow the NPY file format",
  "Whatever is saved, the output is a valid NPY file for numpy: magic and version, a header length field that equals the actual header length, total header size a multiple of 64 ending in a newline, and a dictionary with exactly the type code, the storage order and the shape tuple of the tensor. The payload follows immediately and holds every element in the declared byte order (each half of a complex number separately; strings as fixed-width UCS-4 padded with zeros) and nothing else. This holds for any number and size of dimensions and for custom tensor types as well as the built-in one.",
  ["inputs", "configurations"], "all shapes (any number of dimensions, any 64-bit dimension), all element types, byte orders, storage orders and element values",
  "The tests compare a handful of outputs with golden files, all with three small dimensions or fewer and almost all little-endian; headers long enough to need a second length byte and big-endian complex or string payloads are never produced.",
  ["include/npy/npy.h", "src/dtype.cpp"],
  [("write_npy_header", "include/npy/npy.h"), ("write_values", "src/dtype.cpp"), ("to_dtype", "src/dtype.cpp")],
  ["bytes written by npy::save / npy::write_npy_header"])

p("C03", "Any conforming NPY file is read with its numpy meaning",
  "Every NPY file that follows the format for a supported type is read as numpy would read it: version 1 and version 2 headers, any padding, any order of the three dictionary keys, either byte order, either storage order, any shape. Each element gets exactly the value numpy defines for its bytes.",
  ["inputs", "configurations"], "all conforming headers and payloads for the supported types",
  "The tests read one golden file per type, all written by the same numpy version with the same key order, version 1 headers and little-endian data (one big-endian int32 file).",
  ["src/npy.cpp", "src/dtype.cpp", "include/npy/npy.h"],
  [("read_npy_header", "include/npy/npy.h"), ("header_info(dictionary)", "src/npy.cpp"), ("read_values", "src/dtype.cpp")],
  ["npy::load", "npy::peek"])

p("C04", "Malformed or truncated NPY input is refused, never misread",
  "For any byte sequence, reading it as NPY either throws a standard exception or returns a result fully determined by those bytes: it never reads or writes out of bounds, never depends on uninitialised memory, never hangs. In particular a wrong magic, an unknown version or type code, a missing or garbled dictionary entry, an element count that overflows, and input that ends before the header or the payload is complete are all reported by an exception rather than yielding a tensor.",
  ["inputs"], "all byte sequences given to the NPY reader: every truncation point, every corrupted header byte",
  "No test reads a malformed NPY file; the only rejection tested is a wrong element type and a missing path.",
  ["include/npy/npy.h", "src/npy.cpp", "src/dtype.cpp"],
  [("read_npy_header", "include/npy/npy.h"), ("header_info(dictionary)", "src/npy.cpp"), ("from_dtype", "src/dtype.cpp"), ("tensor::load", "include/npy/npy.h")],
  ["npy::load", "npy::peek"])

p("C05", "Peeking and loading agree, and a wrong element type is refused",
  "Peeking at an NPY file or at an archive entry reports exactly the element type, byte order, storage order, shape and maximum string length that loading it would use, and for saved tensors exactly what was saved, without needing the payload. Loading into a tensor whose element type differs from the stored one always throws and loading into the matching type succeeds.",
  ["inputs", "configurations"], "all pairs of stored and requested element types, all byte orders, storage orders and shapes",
  "The tests peek at the golden files only and try one mismatching pair of types (uint8 read as float).",
  ["src/npy.cpp", "include/npy/npy.h", "src/npz.cpp", "src/tensor.cpp"],
  [("peek", "src/npy.cpp"), ("tensor::load dtype check", "include/npy/npy.h"), ("get_dtype", "src/tensor.cpp")],
  ["npy::peek", "reader.peek", "npy::load"])

p("C06", "Tensor indexing reaches exactly the numpy element",
  "For any shape and either storage order, indexing with in-range indices (negative ones counting from the end as in numpy) reaches the element numpy's row-major or column-major rule names, through every accessor alike; distinct multi-indices reach distinct elements and together they cover the buffer. An index that is out of range in any dimension, or that has the wrong number of dimensions, throws invalid_argument, and no index ever touches memory outside the buffer.",
  ["inputs"], "all shapes, storage orders, multi-indices (including negative, huge and wrong-length ones)",
  "The tests index one 3x4x5 tensor in range and try two bad indices; negative indices, short index vectors and extreme values are not exercised.",
  ["include/npy/npy.h"],
  [("ravel", "include/npy/npy.h"), ("get_ravel_strides", "include/npy/npy.h"), ("operator()/get/set", "include/npy/npy.h")],
  ["tensor::operator()", "tensor::get", "tensor::set", "tensor::ravel"])

p("C07", "Type codes and element types correspond one to one",
  "Every supported element type and byte order has exactly the numpy type code, converting a type to its code and back gives the same type and byte order (byte order being irrelevant for one-byte types), and native order means the order of the machine. A code that names no supported type is refused with an exception and leaves later conversions unaffected.",
  ["inputs", "histories"], "all type/byte-order pairs, all code strings up to the bound, and any sequence of conversions",
  "The tests go through the codes of the golden files; no unknown code is ever tried.",
  ["src/dtype.cpp", "include/npy/npy.h", "src/tensor.cpp"],
  [("to_dtype", "src/dtype.cpp"), ("from_dtype", "src/dtype.cpp"), ("DTYPE_MAP", "src/dtype.cpp"), ("native_endian", "include/npy/npy.h")],
  ["npy::to_dtype", "npy::from_dtype", "tensor::dtype"])

p("C08", "NPZ write then read gives back every tensor under its name",
  "For any sequence of tensors written to an archive under distinct names, stored or compressed, in memory or on disk, and either byte order, reading the archive gives back every tensor bit for bit under its name. A name given without the .npy suffix gets it on writing and may be omitted on reading; the list of names is sorted and complete, and containment is reported for exactly the listed names. Reading a name that is not there throws invalid_argument.",
  ["inputs", "configurations", "histories"], "all names, entry counts, element contents, both storage methods, both byte orders, both media",
  "The tests write one archive with three fixed tensors and compare it with a golden file, and read golden archives; other names, contents, counts and combinations never occur.",
  ["src/npz.cpp", "include/npy/npy.h", "src/zip.cpp"],
  [("write/write_file/close", "src/npz.cpp"), ("read_entries/read_file", "src/npz.cpp")],
  ["npzfilewriter", "npzstringwriter", "npzfilereader", "npzstringreader"])

p("C09", "Every written NPZ archive is a valid ZIP file",
  "Whatever is written, the archive is a ZIP file any standard tool can read: one local header per entry directly followed by its data, a central directory with one matching record per entry carrying the same name, method, sizes and CRC-32 and the entry's true offset, and an end record with the true count, size and offset of the directory. The recorded CRC-32 and sizes are those of the data.",
  ["inputs", "configurations"], "all entry names, contents, counts, storage methods and byte orders",
  "The tests compare two archives with golden files; the directory arithmetic is not checked for any other names, sizes or counts.",
  ["src/npz.cpp"],
  [("write_local_header/write_central_directory_header/write_end_of_central_directory", "src/npz.cpp"), ("write_file", "src/npz.cpp")],
  ["bytes of the archive"])

p("C10", "Any conforming NPZ archive is readable",
  "An archive produced by another tool is read correctly as long as it uses stored or deflated entries: whatever the timestamps, attributes, version-made-by and other descriptive fields are, and whether the sizes or offset are given directly or through ZIP64 extra fields (also when the ZIP64 field is present without being needed), and whatever other extra fields and entry comments are present. Each entry yields exactly its stored bytes. Archives in a form the library does not support (sizes given only after the data, or a comment at the end of the archive) are refused with an exception, never misread.",
  ["inputs", "configurations"], "all values of the descriptive header fields, ZIP64 forms, entry orders and contents",
  "The tests read four archives all made by numpy; the descriptive fields are constant in them and ZIP64 fields appear only in the one form numpy writes.",
  ["src/npz.cpp"],
  [("read_local_header/read_central_directory_header/read_zip64_extra", "src/npz.cpp")],
  ["npzstringreader", "npzfilereader"])

p("C11", "A damaged NPZ archive never yields wrong data",
  "If an archive is damaged - payload bytes changed, local header contradicting the directory, wrong CRC-32, wrong signature, unsupported version, cut short anywhere - then opening it or reading the affected entry throws a standard exception. Data is returned only if its CRC-32 equals the recorded one and the headers agree; no damage leads to out-of-bounds access, reliance on uninitialised memory or a hang.",
  ["inputs"], "all values of the damaged bytes at any position and every truncation point, within the bounds",
  "The only damaged archive tested is an NPY file opened as NPZ.",
  ["src/npz.cpp", "src/zip.cpp"],
  [("assert_sig", "src/npz.cpp"), ("file_entry::check", "src/npz.cpp"), ("CRC check in read_file", "src/npz.cpp")],
  ["npzstringreader", "npzfilereader"])

p("C12", "The checksum is the ZIP CRC-32",
  "The checksum computed over any byte sequence is the standard CRC-32 (polynomial 0xEDB88320, as required by ZIP), so archives verify in other tools and any corruption confined to 32 consecutive bits is detected.",
  ["inputs"], "all byte sequences of any length: every checksum state and next byte, and whole sequences up to the bound",
  "The test checksums one file.",
  ["src/zip.cpp", "src/miniz/miniz.cpp"],
  [("npy_crc32", "src/zip.cpp"), ("mz_crc32", "src/miniz/miniz.cpp")],
  ["npy_crc32", "CRC field of written archives"])

p("C13", "Compression is lossless and decompression is safe",
  "Decompressing what was compressed gives back the original bytes for every input, in particular for lengths at and around the internal buffer size and for input the compressor can only store. Decompressing arbitrary bytes either returns the result defined by the DEFLATE format (references to before the beginning of the output standing for zero bytes) or throws: it never accesses memory out of bounds, never hangs and never returns a partial result for an incomplete stream.",
  ["inputs"], "all byte strings, all lengths relative to the internal buffer size, all ways the codec may split its output",
  "The tests compress three fixed small tensors and decompress archives of three sizes made by Python.",
  ["src/zip.cpp", "src/miniz/miniz.cpp"],
  [("npy_deflate", "src/zip.cpp"), ("npy_inflate", "src/zip.cpp"), ("tinfl_decompress/tdefl_compress", "src/miniz/miniz.cpp")],
  ["npy_deflate", "npy_inflate", "compressed NPZ entries"])

p("C14", "The archive writer stays consistent over any sequence of calls",
  "After any sequence of writes, failed writes and closes, the archive holds exactly the successfully written entries in order and is complete once closed or destroyed. Closing twice changes nothing, writing after closing throws and changes nothing, and a write that throws (unsupported method, or a tensor that fails while being saved) leaves all other entries intact and the writer usable.",
  ["histories", "inputs"], "all sequences of write, failing write, close and destruction up to the bound",
  "The tests exercise one write-then-destroy sequence, one write after close and one unsupported method, and do not look at the archive afterwards.",
  ["src/npz.cpp", "include/npy/npy.h"],
  [("m_closed", "src/npz.cpp"), ("write_file", "src/npz.cpp"), ("close/destructor", "src/npz.cpp")],
  ["npzfilewriter", "npzstringwriter"],
  [("m_closed/m_entries", "whether the directory was written; entries so far", "include/npy/npy.h")])

p("C15", "Reading an entry does not depend on what was read before",
  "For any sequence of reads, peeks, containment tests and failing operations on an open archive, each operation gives the same result as on a freshly opened reader. In particular a read that fails, because the name is missing, the type differs or that entry is damaged, does not affect the other entries.",
  ["histories", "inputs"], "all sequences of operations up to the bound, on intact and partially damaged archives",
  "The tests read each entry once, in order, from intact archives.",
  ["src/npz.cpp", "include/npy/npy.h"],
  [("seekg in read_file", "src/npz.cpp"), ("stream state", "src/npz.cpp")],
  ["npzfilereader", "npzstringreader"])

p("C16", "A save or archive that did not reach the file is reported",
  "If the file cannot take all the bytes (for example because the disk is full), saving a tensor to a path throws, and writing to or closing an archive on disk throws: no call sequence ends normally with an incomplete file. A path that cannot be opened is reported by an exception when saving or loading, and by the open state for an archive writer.",
  ["fault_sequences", "inputs"], "the write failing after any number of bytes, for any content",
  "The tests only try paths in a directory that does not exist; no write ever fails in them.",
  ["include/npy/npy.h", "src/npz.cpp"],
  [("save(path)", "include/npy/npy.h"), ("npzfilewriter::write_file/close", "src/npz.cpp")],
  ["npy::save(path)", "tensor::save(path)", "npzfilewriter"])

p("C17", "Separate objects can be used from separate threads",
  "Operations on separate tensors, streams, readers and writers do not share mutable state, so running them concurrently in different threads gives each the same result as running alone, whatever the inputs (including malformed ones) and whatever the interleaving.",
  ["schedules", "inputs"], "all interleavings of operations on separate objects, all inputs within the bounds",
  "The tests are single-threaded.",
  ["src/npy.cpp", "src/dtype.cpp", "src/npz.cpp", "src/zip.cpp"],
  [("no mutable static storage", "src/npy.cpp"), ("lookup tables", "src/dtype.cpp")],
  ["npy::save", "npy::load", "npy::peek", "NPZ readers and writers"])

p("C18", "Tensors and booleans behave as values",
  "A tensor has the number of elements its shape prescribes; copying, assigning and filling it give a tensor with equal shape, order, type and elements that is independent of its source, and filling from a source of any other size throws invalid_argument and changes nothing. A boolean element is true exactly when the value it was made from or assigned from is true, and occupies one byte holding 0 or 1.",
  ["inputs"], "all shapes, orders, element values, source sizes and convertible source values within the bounds",
  "The tests copy one ramp into a tensor, try three empty sources and never build a boolean from anything but true and false.",
  ["include/npy/npy.h"],
  [("tensor constructors and assignment", "include/npy/npy.h"), ("copy_from/move_from", "include/npy/npy.h"), ("boolean", "include/npy/npy.h")],
  ["npy::tensor", "npy::boolean"])

p("C19", "Sizes and offsets beyond 32 bits survive",
  "Entries and archives larger than 32 bits can express are written in correct ZIP64 form (placeholder fields, extra field with the right tag, length and order of values) and read back with the exact sizes and offset, for every 64-bit value. Anything the archive format as written cannot express (too many entries, too long a name, a directory out of reach) is refused with an exception rather than silently truncated.",
  ["inputs"], "all 64-bit sizes and offsets, name lengths and entry counts around the limits",
  "The largest test archive is a few megabytes, so no ZIP64 field is ever written.",
  ["src/npz.cpp"],
  [("determine_extra_length/write_zip64_extra/read_zip64_extra", "src/npz.cpp"), ("write32", "src/npz.cpp"), ("close", "src/npz.cpp")],
  ["bytes of the archive", "npzstringreader"])

p("C20", "Failed operations release everything they acquired",
  "Whether an operation on NPY or NPZ data succeeds or throws, all memory it acquired internally is released again: repeatedly reading damaged input or failing to write does not leak.",
  ["inputs", "fault_sequences"], "all damaged inputs and failing writes within the bounds",
  "No test looks at resources, and almost no test takes an error path.",
  ["src/zip.cpp", "src/npz.cpp", "src/npy.cpp", "include/npy/npy.h"],
  [("inflateEnd/deflateEnd on every path", "src/zip.cpp"), ("RAII", "src/npz.cpp")],
  ["heap after the operation"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as f:
        for q in P: f.write(json.dumps(q) + "\n")
    print(len(P))
