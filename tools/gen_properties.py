#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept in this form because it is easier to review than one-line JSON).
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                          "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "observe_at": list(observe), "hook_needed": hook}})

AR = "src/hzip_storage/archive/archive.cpp"
ARH = "src/hzip_storage/archive/archive.h"
TR = "src/hzip_storage/archive/archive_trie.h"
ST = "src/hzip_network/api/handlers/streamer.cpp"
SK = "src/hzip_network/api/handlers/socket_class.cpp"
AP = "src/hzip_network/api/api.cpp"

# ------------------------------------------------------------------ storage
p("C01", "An archive reopened after close has exactly the contents it was closed with",
  "After any sequence of successful and rejected operations, closing an archive and opening it again yields exactly the same files (path, number and order of parts, each part's header, payload, sizes and model), the same installed models, and the same directory listings as just before the close. This holds again after any number of close/open cycles, and the reopened archive accepts further operations with the same meaning as the original one.",
  ["histories"], "all sequences of archive operations (create, remove, install/uninstall model, write part, reopen)",
  "No test opens an archive at all (the only tests cover zigzag); durability quantifies over all operation histories, including space reuse between sessions.",
  [AR, ARH, TR], [("write entry / scan", AR + ": hza_write_blob, hza_create_metadata_file_entry, hza_scan*"), ("END marker", AR + ": close, load")],
  [("metadata", "in-memory index rebuilt by load()", ARH)], ["HZ_Archive public API", "bytes of the closed file"])
p("C02", "An open archive behaves like a plain map from paths to contents",
  "While an archive is open, every read, existence test and listing answers exactly as a simple map of file paths to stored parts and of model paths to models would after the same successful operations: what was stored is read back unchanged, removed things are gone, a file is never also a directory, and the directory listing shows exactly the immediate children with the right file/directory kind. Operations on other paths never change it.",
  ["histories", "inputs"], "all operation sequences over paths that nest, collide and share prefixes",
  "There are no archive tests; the property is about all histories and all path shapes.",
  [AR, TR], [("tries", TR), ("blob map", AR + ": metadata.blob_map")], (), ["HZ_Archive public API"])
p("C03", "Stored items never share space, and freed space is reused only after it is freed",
  "At every moment the archive's file image is an exact tiling of well-formed records up to its end: no two live items overlap, every record's length agrees with its contents, and space is handed to a new item only if no live item occupies it. Removing items and storing others of any sizes, in any order, never damages a surviving item, and space freed by a removal is reused by a later item that fits.",
  ["histories", "inputs"], "all histories of storing and removing items whose sizes hit every split/fit boundary of the free-space allocator",
  "The allocator has no test; off-by-one splits only show for particular size differences after particular histories.",
  [AR], [("free-space allocator", AR + ": hza_alloc_fragment, hza_scan_fragment, hza_rm_blob, remove_file, uninstall_mstate")],
  [("fragments", "free list", ARH)], ["independent parse of the archive file", "reads after reuse"])
p("C04", "A shared compression model lives exactly as long as something uses it",
  "A model that any stored part still refers to can never be removed, in the session that stored it or in any later session; an installed model stays until it is explicitly uninstalled; a model attached to parts but not installed under a path disappears with the last part that uses it. A refused uninstall changes nothing.",
  ["histories"], "all histories of installing, using, releasing and uninstalling models across reopen",
  "Reference counting errors need a multi-step history that spans sessions; no test touches models.",
  [AR], [("dependency counts", AR + ": hza_increment_dep, hza_decrement_dep, hza_rm_mstate, scan")],
  [("dep_counter", "uses per model", ARH), ("mstate_inv_aux_map", "installed models", ARH)], ["HZ_Archive public API after reopen"])
p("C05", "A rejected archive operation has no effect and leaves the archive usable",
  "When an archive operation is rejected (missing or existing path, file in the way of a directory or the reverse, invalid path, unknown model or part, model in use), it reports an error, changes neither the visible contents nor the stored image's meaning, and every later operation, from the same or another thread, proceeds normally instead of blocking. Closing and reopening after a rejected operation shows the contents unchanged.",
  ["histories", "fault_sequences"], "every rejected operation at every point of every history up to the depth bound",
  "Error paths are never executed by the tests; the failure (a blocked or corrupted archive) only shows in a later operation or session.",
  [AR, TR], [("checks before effects, lock released on every exit", AR)], (), ["return/exception of each call", "calls after a rejection"])
p("C06", "An archive is open in at most one place at a time, even while being created",
  "If several openers ask for the same archive file concurrently, at most one holds it at any time; each of the others waits until it is closed and then sees everything the previous holder stored, and all of them eventually get their turn. This includes the first opening that creates the file: no opener ever wipes or misses what another one stored.",
  ["schedules"], "all interleavings (up to the preemption bound) of concurrent openers, with and without an existing file",
  "Needs particular interleavings of open, create and close; tests are single-threaded and never open an archive.",
  [AR, "src/hzip_core/utils/fsutils.h"], [("named semaphore", AR + ": constructor, close")],
  [("archive_mutex", "named semaphore per archive path", ARH)], ["HZ_Archive constructor/close", "contents after all closes"])
p("C07", "Concurrent operations on one open archive act as if done one at a time",
  "When several threads use one open archive, the results and final contents equal those of some one-at-a-time order of the same operations, no operation blocks forever, and no thread reads data that another is writing without synchronisation.",
  ["schedules"], "all interleavings up to the preemption bound of 2-3 threads with 1-2 operations each, including ones that are rejected",
  "Atomicity of operations over a shared seek position depends on schedules that no test exercises.",
  [AR], [("archive lock", AR + ": mutex")], (), ["call/return histories", "race monitor"])
p("C08", "The server shares one archive instance per file and survives failed opens",
  "However many sessions ask for the same archive file, under whatever spelling of its path and at whatever moment, they all get the one open instance; different files get different instances. A failed open reports an error to that session only and leaves other archives obtainable; closing everything makes all stored data durable.",
  ["schedules", "inputs"], "all interleavings of concurrent requests, all spellings of a path, failing opens in between",
  "Provider code is not built by the tests; failures need aliasing or an open error followed by another request.",
  ["src/hzip_network/api/providers/archive_provider.cpp"], [("instance map under a lock", "archive_provider.cpp: provide, close")],
  [("archive_map", "open instances", "archive_provider.h")], ["ArchiveProvider::provide/close"])
p("C09", "The path index is a tree map: lookup, insert, remove and listing agree with it",
  "For every sequence of operations, the path index answers membership, lookup, listing and conflict questions as a plain ordered map of paths would: inserting stores the value at exactly that path, a lookup of anything that is not a stored item (missing, a directory, the root) is an error, removing an item removes it and only it together with directories that become empty, and extra slashes do not change a path's meaning. A rejected operation leaves the index unchanged, and no storage is leaked or used after release.",
  ["histories", "inputs"], "all operation sequences up to a depth over nested, colliding and root paths",
  "Never compiled by the tests; errors depend on sibling structure and order of removals.",
  [TR], [("trie", TR + ": set, get, contains, erase, children")], (), ["HZ_ArchiveTrie public API"])
p("C10", "Exactly the well-formed paths are accepted",
  "A path is accepted if and only if it begins with a slash and contains no NUL, backslash, space or two consecutive slashes; everything else, including the empty path and malformed characters at any position, is rejected with a validation error and never crashes.",
  ["inputs"], "all strings up to a length bound over an alphabet with every special character and representatives of the rest",
  "The validator is compiled but never called by a test; it must hold for every string and position.",
  ["src/hzip_core/utils/validation.h"], [("validator", "validation.h: hz_validate_path")], (), ["return / exception"])
# ------------------------------------------------------------------ codecs
p("C11", "The context-mixing codec is lossless",
  "Compressing any byte sequence with the context-mixing codec and decompressing the result returns exactly the original bytes, for every input and length, with a private model or with a model trained on other data, and on every repetition. When the codec declares an input not worth compressing it says so, and the pipeline then still returns the original bytes.",
  ["inputs", "histories"], "all byte strings up to a length over small alphabets, structured families up to tens of kilobytes, all pairs (training data, input) up to a bound",
  "The codec is not built by the tests; losslessness is a statement about every input and every model state.",
  ["src/hzip_codec/victini/victini.cpp", "src/hzip_core/kernel/hzrans/hzrans64.cpp", "src/hzip_core/models/first_order_context.cpp"],
  [("encoder/decoder symmetry", "victini.cpp")], (), ["compress/decompress round trip"])
p("C12", "What is encoded into an archive decodes to the original, for every codec",
  "For every codec, with or without a shared model, for data of any compressibility and any length including empty: encoding it, storing it, and decoding it, in the same or a later session, returns exactly the original bytes. Training a shared model never invalidates files encoded earlier, and a failed training leaves the previous model in place.",
  ["inputs", "histories"], "all (codec, model, payload family, history of train/encode/decode/reopen) combinations up to a bound",
  "No test reaches the encode pipeline; the fallback for incompressible data only shows on decode, with particular inputs.",
  ["src/hzip_codec/processor/processor.cpp", "src/hzip_codec/codec_provider.cpp", "src/hzip_codec/uncompressed/uncompressed.cpp", "src/hzip_core/blob/blob.cpp"],
  [("codec dispatch and raw fallback", "processor.cpp: hzp_encode, hzp_decode, hzp_train")], (), ["HZ_Processor jobs + archive"])
p("C13", "Entropy decoding exactly inverts entropy encoding for every normalised table",
  "For every frequency table that normalisation can produce and every symbol sequence over it, decoding the encoded stream returns the same symbols and leaves the coder in its initial state; normalisation always yields a table whose entries are positive and sum to the required total. This holds for several interleaved/distributed parts and alternating tables as well.",
  ["inputs"], "all small count tables and all short symbol sequences over them; extreme counts",
  "The coder is not built by the tests; renormalisation boundaries depend on exact state values.",
  ["src/hzip_core/kernel/hzrans/hzrans64.cpp", "src/hzip_core/kernel/hzrans/hzrans64_codec.cpp"],
  [("ftable/ctable construction, renormalisation", "hzrans64.cpp, hzrans64_codec.cpp")], (), ["encode/decode API"])
p("C14", "Reversible text transforms restore their input",
  "Burrows-Wheeler and move-to-front transforms followed by their inverses return exactly the original sequence for every input of every length, including empty, single-symbol and highly repetitive ones.",
  ["inputs"], "all sequences up to a length over small alphabets",
  "Not built by the tests; a property of every input, with ties and repetition as hard cases.",
  ["src/hzip_core/preprocessor/burrows_wheeler.h", "src/hzip_core/preprocessor/move_to_front.h"],
  [("transform / inverse", "burrows_wheeler.h, move_to_front.h")], (), ["transform then inverse"])
p("C15", "Zigzag traversal visits every cell exactly once, in zigzag order",
  "For every width and height, iterating from begin to end terminates and yields every cell of the rectangle exactly once, starting at the top-left corner and ending at the bottom-right one, in the order of the anti-diagonals with alternating direction. Any grid size gives the same order as the standard zigzag scan, and advancing from the last cell always reaches the end position.",
  ["inputs", "configurations"], "all grid dimensions up to a bound",
  "The four tests check four fixed grids; the property is over all dimensions, with width and height parity, single rows and columns as separate cases.",
  ["src/hzip_core/preprocessor/zigzag.h"], [("direction switch at the borders", "zigzag.h: zigzag_pair::next"), ("iterator", "zigzag.h: const_iterator")],
  (), ["iteration sequence"])
p("C16", "Colour transforms are lossless and stay within their declared range",
  "Converting any pixel to the coded colour space and back returns the identical pixel, for every channel value at every supported bit depth and every image size; coded values stay within the range the coder assumes.",
  ["inputs", "configurations"], "all 2^24 8-bit pixels; for deeper samples all values of each channel against boundary values of the others, all depths",
  "Not built by the tests; a rounding or wrap-around error affects few of the possible pixel values.",
  ["src/hzip_core/preprocessor/color.cpp", "src/hzip_core/preprocessor/color.h"], [("lifting steps", "color.cpp")], (), ["transform then inverse"])
p("C17", "Image prediction is invertible",
  "Applying the Paeth prediction filter to an image and inverting it restores the image exactly, for every image size (including one row or column), channel count and sample depth, with the same result whether it works in place or on a copy.",
  ["inputs", "configurations"], "all image dimensions up to a bound x all contents over a small value alphabet incl. extremes, all depths",
  "Not built by the tests; border pixels and wrap-around at sample limits are separate cases for every size.",
  ["src/hzip_core/models/paeth.cpp", "src/hzip_core/models/paeth.h"], [("predictor and inverse", "paeth.cpp")], (), ["filter then inverse"])
p("C18", "Accelerated and CPU implementations of a transform give identical results",
  "Wherever a transform has both a CPU and an OpenCL implementation, both produce bit-identical output for every input and size, so that data written with one can be read with the other.",
  ["inputs", "configurations"], "all transforms with two implementations x all small shapes x boundary values",
  "There is no OpenCL device in any test environment; the two code paths are written separately.",
  ["src/hzip_core/preprocessor/color.cpp", "src/hzip_core/models/paeth.cpp", "src/hzip_codec/sharingan/state_transition.cpp"],
  [("twin implementations", "color.cpp, paeth.cpp, state_transition.cpp and their .cl sources")], (), ["outputs of both executors"])
p("C19", "The image codec's output is a faithful description of the image",
  "For every image the image codec accepts, the compressed form contains everything needed to rebuild exactly the original pixels: dimensions, depth, channel layout and residuals decode back to the input, also where rows are empty of detail, and for the smallest images (ancillary data such as transparency entries is not part of the pixels).",
  ["inputs", "configurations"], "all small image shapes, depths and contents",
  "Not built by the tests; no decoder exists in the tree, so nothing has ever compared output with input.",
  ["src/hzip_codec/sharingan/sharingan.cpp", "src/hzip_codec/sharingan/state_transition.cpp"], [("state transition coding", "state_transition.cpp")], (), ["compress output decoded by a reference decoder"])
p("C20", "The PNG reader returns exactly the image's samples and rejects malformed files",
  "For every valid PNG (all colour types, depths, dimensions and interlacing) the reader returns exactly the samples, dimensions and channel count of the image; for truncated or malformed data it reports an error (ancillary chunks, such as transparency entries, are not part of the samples). It never reads or writes outside its buffers.",
  ["inputs", "configurations", "fault_sequences"], "all colour types x depths x small dimensions x interlacing; every truncation point; every single-byte corruption of a small file",
  "Not built by the tests; sub-byte and 16-bit depths and truncated data need specific files.",
  ["src/hzip_core/preprocessor/png_bundle.cpp", "src/hzip_core/preprocessor/png_bundle.h"], [("row decoding", "png_bundle.cpp")], (), ["pixels vs. an independent encoder", "address sanitizer"])
p("C21", "JPEG coefficients survive a read/write/read round trip unchanged",
  "Reading a JPEG's quantised coefficients, writing them back and reading again yields identical coefficients, quantisation tables and dimensions for every component, for every image size (including sizes that are no multiple of the block size) and chroma subsampling. A JPEG whose coefficients cannot be written is an error, never written as something else. Truncated or malformed input yields an error and leaves the process intact, with everything released.",
  ["inputs", "configurations"], "all small image sizes x subsampling modes x component counts; truncated inputs",
  "The JPEG code is only compiled by the tests, never run; mistakes need non-square or odd-sized images.",
  ["src/hzip_core/preprocessor/jpeg_codec.h"], [("coefficient arrays", "jpeg_codec.h")], (), ["coefficients before/after"])
p("C22", "Serialised integers, bit codes and headers read back as written",
  "Every serialisation helper is inverted by its reader for all values: 64-bit values to and from bytes, byte and word packing, prefix codes for integers (up to 31 bits), bit lists, and parameter lists. Sizes reported by the writer equal the bits or bytes written, and a truncated parameter list is never read as if complete.",
  ["inputs"], "all values up to a bound plus every power of two and its neighbours; all byte strings up to a length; all sequences of header fields up to a length",
  "Not compiled by the tests; failures occur at word boundaries and large values.",
  ["src/hzip_core/utils/utils.h", "src/hzip_core/blob/blob.cpp"], [("packers", "utils.h, blob.cpp")], (), ["write then read"])
p("C23", "The buffered stack is a last-in first-out stack",
  "For every sequence of pushes, pops, tops and size queries, across any number of internal buffers and after being emptied and reused, the stack answers as a plain list would, and releases all its memory.",
  ["histories"], "all push/pop histories around every buffer boundary",
  "Not compiled by the tests; boundary transitions need 65536 operations and a direction change.",
  ["src/hzip_core/utils/stack.h"], [("buffer chain", "stack.h: push, pop, size")], (), ["push/pop/top/size"])
p("C24", "Delta coding followed by its inverse restores the data",
  "For every integer sequence of every length, including empty and single-element ones and values near the integer limits, delta coding stores exactly the successive differences and inverting it restores the original values, without touching memory outside the sequence.",
  ["inputs"], "all sequences up to a length over a value alphabet with extremes, all lengths up to a bound",
  "The transform is compiled but never run by the tests; length zero and border elements are special.",
  ["src/hzip_core/preprocessor/delta.cpp"], [("backward and forward pass", "delta.cpp: transform, invert")], (), ["transform / invert"])
# ------------------------------------------------------------------ runtime
p("C25", "The counting semaphore never over-admits and never loses a wakeup",
  "At every moment the number of completed acquisitions is at most the initial count plus the number of releases begun, and whenever a permit is available some waiting thread gets it: no interleaving of acquirers and releasers, spurious wakeups included, leaves a thread waiting forever while a permit is free. Access to the semaphore's own state is race-free.",
  ["schedules", "configurations"], "all interleavings up to the preemption bound of up to 4 threads, all small initial counts, all wakeup choices",
  "Compiled but never run by the tests; lost wakeups need particular interleavings.",
  ["src/hzip_core/utils/semaphore.cpp", "src/hzip_core/utils/semaphore.h"], [("mutex + condition variable", "semaphore.cpp")],
  [("_count", "free permits", "semaphore.h")], ["acquire/release returns"])
p("C26", "Every submitted job runs once, reports once, and at most N run at a time",
  "For every set of jobs submitted concurrently to the processor, each runs exactly once and delivers exactly one outcome, success or failure, followed by exactly one completion signal; never more jobs run at once than the configured number of threads; a failing or throwing job neither blocks nor disturbs the others, and its slot is given back.",
  ["schedules", "fault_sequences"], "all interleavings up to the preemption bound of 2-4 jobs on 1-2 slots, each job succeeding, failing or throwing",
  "Not built by the tests; slot leaks and double completion need failing jobs and specific schedules.",
  ["src/hzip_codec/processor/processor.cpp", "src/hzip_codec/processor/job.h"], [("slot semaphore, worker thread, callbacks", "processor.cpp")], (), ["job callbacks", "race monitor"])
p("C27", "Cache slots are handed out round-robin, each with its own lock",
  "For every configured number of cache slots, also after reconfiguring to more or fewer, successive requests from any threads are served from all slots in turn, always with an existing slot and that slot's own lock, and concurrent requests never corrupt the rotation.",
  ["schedules", "histories", "configurations"], "all sequences of configure/request up to a depth; all interleavings of concurrent requests",
  "Not built by the tests; reconfiguration and concurrency are never exercised.",
  ["src/hzip_core/runtime/cache_provider.cpp"], [("rotation index under a lock", "cache_provider.cpp")], (), ["slot identity"])
p("C28", "Accelerator device and kernel management is consistent and cannot deadlock",
  "Programs are built for every usable device and requests rotate over exactly the devices that are loaded and pass the filter, also after the set is changed; asking for an unknown kernel or when no device exists is an error, never a crash; a host without platforms or devices simply has no accelerator. Concurrent registration, lookup and reconfiguration never deadlock or race.",
  ["schedules", "histories", "configurations", "fault_sequences"], "all sequences up to a depth of device discovery outcomes, filters, registrations and lookups; all interleavings of two such calls",
  "Compiled but never run by the tests; there is no device to enumerate in a test environment.",
  ["src/hzip_core/opencl/cl_helper.cpp", "src/hzip_core/opencl/cl_helper.h"], [("registries", "cl_helper.cpp")], (), ["provider APIs over a fake OpenCL runtime"])
p("C29", "Each environment setting takes effect exactly, and defaults hold otherwise",
  "For every combination of set and unset configuration variables, each setting has exactly the value given for it, or its documented default when unset, independently of the other variables; a malformed number is reported as an error and does not silently become another value; a host with no accelerator starts normally.",
  ["configurations", "inputs"], "all combinations of set/unset variables x representative and malformed values",
  "Never run by the tests; cross-talk between settings needs combinations.",
  ["src/hzip_core/runtime/config.cpp", "src/hzip_core/runtime/config.h"], [("configure", "config.cpp: Config::configure")], (), ["Config fields"])
p("C30", "Size arguments mean what they say",
  "A size such as 10kb, 3mb, 2gb or 7b converts to exactly that number of bytes for every number that fits; text without a valid suffix converts to zero and a suffix without a number is an error. Command line options are recognised in both spellings, with separate or attached values, in any order, and an unknown option is reported.",
  ["inputs"], "all digit strings up to a length x all suffixes x malformed variants; all option sequences up to a length",
  "Compiled but never called by a test; the suffixes overlap (every one ends in b).",
  ["src/terminal.h", "other/argparse"], [("suffix dispatch", "terminal.h: conv_to_bytes"), ("parser", "terminal.h: build_parser")], (), ["return value"])
# ------------------------------------------------------------------ network
p("C31", "Socket transfers deliver the exact bytes or report failure",
  "A send or receive of n bytes either transfers exactly those n bytes in order, whatever way the network splits them, or reports a failure; an error, a timeout or a closed peer at any point is never taken for success, and no bytes outside the caller's buffer are touched. The socket is closed exactly once.",
  ["fault_sequences", "inputs"], "all sequences of partial transfers, errors and end-of-stream answers up to a length for all small n",
  "Compiled but never run by the tests; partial transfers and errors do not occur on demand on a real network.",
  [SK, "src/hzip_network/api/handlers/socket_class.h", AP], [("transfer loop", "socket_class.cpp")], (), ["bytes transferred, return value"])
p("C32", "Nobody without the key gets past the handshake",
  "A session reaches the service only if the client answered the server's fresh random challenge correctly under the configured key; every wrong, short, late or replayed answer is refused: it gets no success reply, nothing it sent ahead is served, the connection is closed, and its slot becomes available again.",
  ["inputs", "fault_sequences", "histories"], "all answers one bit away from the right one, answers to earlier challenges, all truncations and faults during the exchange, several keys",
  "The server is not built by the tests.",
  [AP, ST, "src/hzip_core/utils/utils.h"], [("token exchange", "streamer.cpp / api.cpp handshake"), ("token derivation", "utils.h: hz_enc_token")], (), ["bytes on the wire"])
p("C33", "Every request gets exactly one well-formed reply and the session stays usable",
  "For every sequence of protocol requests on a session, valid, invalid or rejected by the archive, the server answers each with exactly one complete reply or an explicit error frame, in order (for a deletion, the readiness for the next request is the reply), and the next request is processed normally. A lost or misbehaving client ends only its own session.",
  ["histories", "inputs", "fault_sequences"], "all request sequences up to a depth over every request kind with valid and invalid arguments; a disconnect at every byte position",
  "The server is not built by the tests; framing errors depend on sequences.",
  [ST, "src/hzip_network/api/handlers/query.cpp", AP], [("request dispatch", "streamer.cpp: start loop"), ("queries", "query.cpp")], (), ["bytes on the wire"])
p("C34", "Streamed files round-trip, and a failed upload leaves no file",
  "A file uploaded to the service in any number of parts of any sizes and downloaded again, in the same or another session, comes back identical and in order. If any part fails to encode or the client vanishes midway, no file entry appears under that name and the name can be used again.",
  ["histories", "schedules", "fault_sequences", "inputs"], "all splits of small payloads into parts, all part-failure and disconnect positions, all completion orders of the concurrent part jobs",
  "The server is not built by the tests; the order in which concurrent parts finish varies with the schedule.",
  [ST], [("slot ordering of parts", "streamer.cpp: encode"), ("ordered delivery", "streamer.cpp: decode")], (), ["wire bytes and archive contents"])
p("C35", "The connection limit holds and no slot is ever lost",
  "The service never serves more sessions at once than configured; every session that ends, normally, by error, by failed handshake or by a connection fault, gives its slot back and closes its socket, so the service can always go on to accept the configured number of clients. Failures while accepting never stop it.",
  ["schedules", "fault_sequences"], "all interleavings up to the bound of 2-3 clients on 1-2 slots x all fault positions of the accept and handshake path",
  "The server is not built by the tests; slot leaks need faults.",
  [AP], [("slot semaphore", "api.cpp: start, _start")], (), ["concurrent sessions, open descriptors"])
p("C36", "Graceful shutdown makes every stored file durable",
  "When the service is shut down, everything stored by completed requests is present, intact and readable when the archives are next opened, and the archives' locks are released so that they can be opened again.",
  ["histories", "schedules"], "all request histories up to a depth, shut down between any two requests",
  "The server is not built by the tests.",
  [AP, "src/hzip_network/api/providers/archive_provider.cpp", AR], [("shutdown closes archives", "api.cpp: shutdown")], (), ["archive contents after shutdown"])
p("C37", "Opening a damaged archive file is an error and never a crash",
  "Whatever bytes a file holds (cut short anywhere, with changed bytes or numbers, or no archive at all), opening it as an archive ends: either with an error that leaves the file as it was, or with an archive. Everything done with what opened ends with a result or an error as well. Nothing crashes, hangs, touches memory outside its buffers or asks for memory out of proportion to the file, and afterwards the archive is not left locked.",
  ["inputs", "fault_sequences"], "all truncations, all changes of one byte, all replacements of a number by a boundary value, of archives of several shapes; all short files",
  "No test opens an archive; damage is a matter of every byte of every file.",
  [AR], [("scan", "archive.cpp: hza_scan and its segments")], (), ["HZ_Archive construction, load, reads and changes, file bytes"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), max(len(x["title"]) for x in P))
