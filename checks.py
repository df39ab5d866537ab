# What decides each property: harness sources, build variant, repository sources needed (None: all).
ENUM = "exhaustive enumeration of bounded inputs on the real code against a reference model"
SCHED = "stateless model checking: all interleavings of the real code up to a preemption bound under a controlled scheduler, with a happens-before race monitor"
CHECKS = {
    "C01": dict(bins=[dict(src=["c01_durable.cpp"], variant="asan", repo=["hzip_storage", "hzip_core/blob", "hzip_core/utils"])], technique="explicit-state exploration: all operation sequences up to a depth on the real archive, compared with a twin that stays open", note="All valid histories up to depth 6 (7) with close/reopen anywhere, rejected operations up to depth 4 (5); no crash between operations."),
    "C02": dict(bins=[dict(src=["c02_map.cpp"], variant="asan", repo=["hzip_storage", "hzip_core/blob", "hzip_core/utils"])], technique="explicit-state exploration: all operation sequences up to a depth on the real archive, compared with a reference map", note="All valid histories up to depth 5-6 (6-7) over small alphabets; no reopening."),
    "C03": dict(bins=[dict(src=["c03_space.cpp"], variant="asan", repo=["hzip_storage", "hzip_core/blob", "hzip_core/utils"])], technique="explicit-state exploration: all operation sequences up to a depth on the real archive, compared with a reference map through an independent parser of the file image", note="All valid histories up to depth 6-8 (7-9) with payload sizes around the fragment limits; image parsed after every operation."),
    "C04": dict(bins=[dict(src=["c04_models.cpp"], variant="asan", repo=["hzip_storage", "hzip_core/blob", "hzip_core/utils"])], technique="explicit-state exploration: all operation sequences up to a depth on the real archive, compared with a reference model of model lifetimes", note="All histories up to depth 6-7 (7-8) incl. refused removals and reopening; every model probed at the end."),
    "C05": dict(bins=[dict(src=["c05_rejected.cpp"], variant="asan", repo=["hzip_storage", "hzip_core/blob", "hzip_core/utils"])], technique="explicit-state exploration: every rejectable operation in every state reached by all short histories, on the real archive", note="About 100 rejected operations after all valid histories up to depth 3 (4), pairs after depth 1 (2); contents, file image, later operations from another thread and reopening are compared."),
    "C06": dict(bins=[dict(src=["c06_exclusive.cpp"], variant="sched", repo=["hzip_storage", "hzip_core/blob", "hzip_core/utils"])], technique=SCHED, note="2-3 openers, 2-3 (3-4) preemptions at every synchronisation operation and file access, file absent or present, failing openings; sequentially consistent memory."),
    "C07": dict(bins=[dict(src=["c07_concurrent.cpp"], variant="sched", repo=["hzip_storage", "hzip_core/blob", "hzip_core/utils"])], technique=SCHED + "; results checked for linearizability against a reference map", note="All pairs of 12 programs with 3 (5) preemptions, triples with 1 (2); sequentially consistent memory."),
    "C08": dict(bins=[dict(src=["c08_provider.cpp"], variant="sched", repo=["hzip_storage", "hzip_core/blob", "hzip_core/utils", "hzip_network/api/providers"])], technique=SCHED + "; all request sequences", note="All sequences of 4 (5) requests; 2-3 sessions with 1-2 (2-3) preemptions, 1-2 sessions while closing with 2-3 (3-4); other processes that hold an archive are not considered."),
    "C09": dict(bins=[dict(src=["c09_trie.cpp"], variant="asan", repo=[], sched=False)], technique="explicit-state exploration: all operation sequences up to a depth on the real index, compared with a map", note="All sequences up to length 5-7 (6-8) over small path sets, every query spelling; address sanitizer and allocation accounting on."),
    "C10": dict(bins=[dict(src=["c10_path.cpp"], variant="asan", repo=[], sched=False)], technique=ENUM,
                note="All strings up to length 7 (8) over the special characters, every byte pair, one defect at every position of paths up to 300 (700)."),
    "C11": dict(bins=[dict(src=["c11_victini.cpp"], variant="asan", repo=None)], technique=ENUM, note='All inputs up to length 3-7 (5-12) over small alphabets, all bytes and byte pairs, lengths to 40 (700) and every boundary, training histories, blocks to 150000 bytes (4 MiB); ASan. Bit and memory layers are the stand-ins for the absent submodules.'),
    "C12": dict(bins=[dict(src=["c12_pipeline.cpp"], variant="fast", repo=None)], technique="explicit-state exploration: all operation sequences up to a depth through the real job processor, codecs and archive, compared with a reference map", note='Histories of 3 (4) of 17 operations, 2 (3) of 27, 2 (3) after 5 training prefixes, every codec and 15 kinds of images with and without archive; one worker thread. Known finding: Sharingan::decompress is not implemented.'),
    "C13": dict(bins=[dict(src=["c13_rans.cpp"], variant="asan", repo=["hzip_core/kernel"], sched=False)], technique=ENUM, note='All frequency vectors of up to 5 (6) entries, all tables of small totals, boundary states, streams; frequencies up to 2^32.'),
    "C14": dict(bins=[dict(src=["c14_text.cpp"], variant="asan", repo=[], sched=False)], technique=ENUM, note="All sequences up to length 6-17 over small alphabets, every byte pair, every length up to 400 (1500) of 14 content families, blocks up to 200000 (4194304); address sanitizer on."),
    "C15": dict(bins=[dict(src=["c15_zigzag.cpp"], variant="fast", repo=[], sched=False)],
                technique="exhaustive enumeration of all grid sizes up to a bound, executed on the real iterator against a reference order",
                note="Every grid up to 64x64 (128x128), all thin grids up to length 4000 (20000), dimensions around 8/16-bit limits; nothing assumed."),
    "C16": dict(bins=[dict(src=['c16_color.cpp'], variant='fast', repo=['hzip_core/preprocessor/color','hzip_core/runtime'], sched=False)], technique=ENUM, note='All pixels of depths 1-9 (10); depths 10-16: all values of a channel x boundary values of the others; sizes up to 12^2 (24^2), 3 and 4 planes, in place and not.'),
    "C17": dict(bins=[dict(src=['c17_paeth.cpp'], variant='fast', repo=['hzip_core/models/paeth','hzip_core/runtime'], sched=False)], technique=ENUM, note='All contents of shapes of up to 20 (24) bits, extreme values up to 4x4x4, all 2x2 up to depth 6 (7), sizes up to 20^2 (40^2) and long rows.'),
    "C18": dict(bins=[dict(src=['c18_twins.cpp'], variant='asan', opencl=True, engine=['fakecl.cpp'], libs=['-lcrypto','-lpng','-ljpeg']), dict(src=['c18_twins.cpp'], variant='sched', opencl=True, engine=['fakecl.cpp'], defs=['C18_SCHED'], libs=['-lcrypto','-lpng','-ljpeg'])], technique=ENUM, note='Colour transform up to 8^2 (12^2) x 48 work divisions x depths and all depth-8 pixels; Paeth up to 5^2 (8^2) x 4; Sharingan model up to 4^2 (6^2) x chunks x orders x depths; dispatch at the size limits; 1 (2) failing OpenCL calls; two at once with 2 (3) preemptions. The device is a stand-in that compiles and runs the registered OpenCL sources on the CPU.'),
    "C19": dict(bins=[dict(src=['c19_image.cpp'], variant='asan', sched=False), dict(src=['c19_image.cpp'], variant='sched', defs=['C19_SCHED'])], technique=ENUM, note='15 kinds x up to 7^2 (12^2), all contents of up to 9 (14) bits, every sample value, chunks up to 4^2 (6^2) x orders x rates, sizes around the default chunks, truncations and inverted bytes, two at once with 2 (3) preemptions. Decoding is the reference decoder of the harness (the repository has none).'),
    "C20": dict(bins=[dict(src=['c20_png.cpp'], variant='asan', repo=['hzip_core/preprocessor/png_bundle'], sched=False)], technique=ENUM, note='15 kinds x up to 10^2 (17^2) x interlacing x filters x chunk layouts, rows to 70000 pixels, all contents of up to 12 (16) bits, every truncation, damage of every byte of 45 (90) files, wrong contents with right checksums, all sequences of up to 5 chunks. Transparency (tRNS) is not retained and not compared.'),
    "C21": dict(bins=[dict(src=['c21_jpeg.cpp'], variant='asan', repo=[], sched=False, libs=['-ljpeg'])], technique=ENUM, note='26 component layouts x sizes around every block and MCU boundary (1-50) x 8 file layouts (interleaved or not, restart intervals, spectral selection and successive approximation), every value of every coefficient, all pairs of positions, DC differences, every 16-bit table entry, every truncation, 12-20 damages of every byte of 24 (64) files, all sequences of up to 6 (7) segments. Up to 4 components (libjpeg reads no more); arithmetic coding and 12-bit samples are not generated.'),
    "C22": dict(bins=[dict(src=["c22_serial.cpp"], variant="asan", repo=["hzip_core/blob"], sched=False)], technique=ENUM,
                note="All values/lengths/bit widths listed in the evidence bounds; prefix codes up to 31 bits (longer ones do not fit their 64-bit result); bit stream is the stand-in for the absent bitio submodule."),
    "C23": dict(bins=[dict(src=["c23_stack.cpp"], variant="fast", repo=[], sched=False)],
                technique="exhaustive enumeration of operation sequences on the real stack against a list",
                note="All sequences of 11 (13) single operations from empty, 8 (10) around every buffer boundary up to 3 buffers, 5 (6) bulk operations; no concurrent use."),
    "C24": dict(bins=[dict(src=["c24_delta.cpp"], variant="asan", repo=["hzip_core/preprocessor/delta"], sched=False)], technique=ENUM,
                note="All sequences up to length 6 (7) over 8 values incl. the extremes, every length up to 2500 (9000); address sanitizer on."),
    "C25": dict(bins=[dict(src=["c25_semaphore.cpp"], variant="sched", repo=["hzip_core/utils/semaphore"])], technique=SCHED,
                note="Up to 4 threads, 2-4 (3-6) preemptions, spurious wakeups, all small programs of acquire/release and initial counts 0..2; sequentially consistent memory."),
    "C26": dict(bins=[dict(src=["c26_processor.cpp"], variant="sched", repo=None)], technique=SCHED, note='13 kinds of jobs, pairs with 2 (3) preemptions, triples 1 (2), deep 5 (7), four jobs 1 (2).'),
    "C27": dict(bins=[dict(src=["c27_cache.cpp"], variant="sched", repo=["hzip_core/runtime/cache_provider"])], technique=SCHED,
                note="All histories of 6 (7) configurations/requests; 2-3 requesting threads, 2-3 (3-5) preemptions."),
    "C28": dict(bins=[dict(src=['c28_opencl.cpp'], variant='asan', repo=['hzip_core/opencl'], opencl=True, engine=['fakecl.cpp'], libs=['-lcrypto','-lpng','-ljpeg']), dict(src=['c28_opencl.cpp'], variant='sched', repo=['hzip_core/opencl'], opencl=True, engine=['fakecl.cpp'], defs=['C28_SCHED'], libs=['-lcrypto','-lpng','-ljpeg'])], technique=SCHED, note='Histories of 5 (6) of 19 operations, 3 (4) with any 2 failing calls, pairs of calls with 3 (4) preemptions, two threads with two calls 2 (3), three calls 2 (3). OpenCL is a stand-in.'),
    "C29": dict(bins=[dict(src=['c29_config.cpp'], variant='fast', repo=['hzip_core/runtime', 'hzip_core/opencl'], opencl=True, engine=['fakecl.cpp'], libs=['-lcrypto','-lpng','-ljpeg']), dict(src=['c29_config.cpp'], variant='asan', repo=['hzip_core/runtime', 'hzip_core/opencl'], sched=True), dict(src=['c29_main.cpp'], variant='fast', repo=None, engine=['net.cpp'])], technique=ENUM, note='3^11 option combinations with and without OpenCL support, each variable x ~110 values x one other variable, 4 hosts x 9 filters; the program itself with 0-4 (5) sessions x threads x other settings, one schedule.'),
    "C30": dict(bins=[dict(src=["c30_sizes.cpp"], variant="asan", repo=[], sched=False)], technique=ENUM,
                note="Every number below 200000 (1000000) with each suffix, all boundary values, all texts up to length 6 (7), all command lines up to 4 arguments."),
    "C31": dict(bins=[dict(src=["c31_socket.cpp"], variant="asan", engine=["net.cpp"])],
                technique="stateless model checking of the real socket layer over in-memory sockets: every socket call's possible answers (partial, error, end of stream) enumerated",
                note="All operation sequences up to 3, all fault placements up to 2-3 faults; whole sessions with a fault at every call. Kernel sockets replaced by a model with MSG_WAITALL semantics."),
    "C32": dict(bins=[dict(src=["c32_handshake.cpp"], variant="asan", repo=None, engine=["net.cpp"])], technique="explicit-state exploration: all answers one bit off, replays, truncations and fault positions of the handshake against the real server over in-memory sockets", note='10 keys x ~98 answers x requests ahead, replay histories of 5 (6) sessions, two at once (2 preemptions in the thorough run), short answers, 2 (3) network faults, 8 random sources x 48 sessions.'),
    "C33": dict(bins=[dict(src=["c33_requests.cpp"], variant="asan", repo=None, engine=["net.cpp"])], technique="explicit-state exploration: all request sequences up to a depth against the real server over in-memory sockets, compared with a reference model of the protocol", note='All sequences of 1-2 of ~92 requests, 198 runs with malformed contents, all non-command bytes at 7 levels, a client vanishing after each byte.'),
    "C34": dict(bins=[dict(src=['c34_stream.cpp'], variant='fast', repo=None, engine=['net.cpp'])], technique=SCHED, note='Sizes up to 13 (24) x blocks of 1-5 (7), all failing subsets of up to 5 (6) parts, vanishing at each of 3736 byte positions, 2 (3) network faults, histories of 5 (6) of 9 requests, 66 pairs of sessions with 1 (2) delays, 9 core pairs with 2 (3), real codec.'),
    "C35": dict(bins=[dict(src=["c35_slots.cpp"], variant="fast", repo=None, engine=["net.cpp"])], technique=SCHED, note='1-3 slots with up to 2 clients more than slots, 7 ways for a session to end, 2 (3) preemptions on one slot, 2-3 faults.'),
    "C36": dict(bins=[dict(src=["c36_shutdown.cpp"], variant="fast", repo=None, engine=["net.cpp"])], technique=SCHED, note='Histories of 2 (3) of 12 requests and a late request, shutdown at every byte moment, schedules with 1-3 preemptions, two sessions.'),
    "C37": dict(bins=[dict(src=["c37_damaged.cpp"], variant="asan", repo=["hzip_storage", "hzip_core/blob", "hzip_core/utils"])], technique="fault enumeration: every truncation, byte change and number change of archive files, on the real archive", note="Every file of up to 2 bytes, every cut, every change of one byte, every bit position x 27 boundary values, pairs of numbers in 5 archives of 13-500 bytes; used, changed and reopened afterwards. The bit stream is the stand-in (reading past the end is an error)."),
}
NOT_APPLICABLE = {}
