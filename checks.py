"""Per-property harnesses: what is built, how, and what counts as a case."""
import os
O1 = ["-O1"]
CHECKS = {}


def chk(pid, rule, bins, technique, note, assumptions=(), level="exploration"):
    for b in bins:
        # the library's self-contained parts are cheap to run: more cases
        if pid <= "P16":
            b.setdefault("scale", 3)
    CHECKS[pid] = dict(rule=rule, bins=bins, technique=technique, note=note, assumptions=list(assumptions), level=level)


chk("P01",
    "cases: every byte value at every position of the 4-symbol cycle (4 element types, both alphabets), all 2-byte "
    "strings, all 5-symbol texts over a hostile alphabet, random round trips, mutated valid texts; each text is decoded "
    "in one call and incrementally with the decoder state judged after every step. distinct = different inputs.",
    [dict(src="base64.cpp")],
    "ASan/UBSan execution + RFC 4648 reference-oracle monitor on every decode step",
    "All single bytes/pairs are covered; longer inputs are sampled.")

chk("P02",
    "cases: every power of two +-2 with 16 decorations, fixed literals, case patterns of boolean words with byte "
    "mutations, byte pairs, random integers/floats with random mutations; each string is converted to 11 integer, 3 "
    "float, bool and 2 string types from an exact-size heap buffer. distinct = different strings.",
    [dict(src="from_string.cpp")],
    "ASan/UBSan execution + 128-bit/strtod reference-oracle monitor",
    "Floats are judged against glibc strtod; inf/nan spellings and subnormal/underflow results may be either accepted "
    "exactly or rejected.")

chk("P03",
    "cases: all byte pairs, random/variant string pairs and triples over several alphabets for order axioms, random "
    "trims with 4 predicates, random splits, fixed strings of 7 size pairs and 3 character types. distinct = different inputs.",
    [dict(src="strings.cpp")],
    "ASan/UBSan execution + reference-oracle and order-axiom monitor",
    "Ordering of non-ASCII bytes is only required to be a consistent total order.")

chk("P04",
    "cases: every byte in 14 tag positions, random valid tags (commas, obs-text) and their mutations, random tag object "
    "histories, random If-None-Match lists and mutations. distinct = different texts.",
    [dict(src="etag.cpp")],
    "ASan/UBSan execution + RFC 9110 recogniser oracle",
    "Empty list elements and whitespace other than SP/HTAB are left unspecified.")

chk("P05",
    "cases: all (first,last,total) up to 20 (60 thorough), random lists and suffixes over 64-bit edge values with random "
    "totals, text mutations. distinct = different (text,total).",
    [dict(src="range.cpp")],
    "ASan/UBSan execution + 128-bit reference oracle",
    "Whitespace around '=' and '-' is left unspecified; last position 2^64-1 must be rejected (its length is not representable).")

chk("P06",
    "cases: both ends of every day 1905-2178, random instants with sub-second edges, date pairs, 70000 version numbers. "
    "distinct = different instants/slices.",
    [dict(src="scalars.cpp")],
    "UBSan execution + calendar-counting oracle",
    "date::parse is compiled out with every compiler available here (needs std::chrono::parse), so it is not exercised.")

chk("P11",
    "cases: all case patterns of level names and byte mutations, all 64 level subsets, every bound, environment values, "
    "random records x 5 patterns x newline/file/colour styles. distinct = different formatted lines.",
    [dict(src="loglocal.cpp")],
    "ASan/UBSan execution + reconstruction oracle for every formatted line",
    "Sub-second digits of the time stamp may have any length but must be correct; times before 1970 are not formatted.")

chk("P07",
    "cases: grammar-generated types (whitespace, suffix, repeated parameters in mixed case) and mutations, every byte in "
    "20 positions, comparison pairs, parameter-map histories against a map model, all predefined types, extensions in "
    "random case with mutations. distinct = different inputs/histories.",
    [dict(src="mime.cpp")],
    "ASan/UBSan execution + grammar recogniser and map-model oracle",
    "Quoted parameter values are outside the accepted grammar by the library's documented choice.")

chk("P08",
    "cases: all strings up to length 6 over a hostile alphabet, every byte in 23 positions, generated patterns and "
    "mutations; each parsed with and without wildcard support by a fresh and a reused parser; 15 compile-time patterns. "
    "distinct = different patterns.",
    [dict(src="path_parser.cpp")],
    "ASan/UBSan execution + grammar recogniser oracle and losslessness monitor",
    "Patterns not starting with '/' that contain a wildcard are left unspecified.")

chk("P09",
    "cases: random histories (10-50 operations) over pools of expected<T,E>, expected<void,E> and expected<T&,E> for 16 "
    "element-type combinations (throwing/nothrow/move-only/trivial), a quarter of the steps with a throw injected into the "
    "n-th element operation; every object is compared with a model after every step. distinct = different histories.",
    [dict(src="expected.cpp", flags=["-O0"])],
    "ASan/UBSan execution + lifetime registry, throw injection and model-based state oracle",
    "Conversions between expected types are only used through direct initialisation; values of a swap interrupted by a "
    "throw are left unspecified when both sides hold the same alternative.")

chk("P10",
    "cases: random histories (10-50 operations) over pools of optional<T> (throwing, nothrow, move-only, int), "
    "optional<void> and optional<T&> with injected element throws; every object is compared with a model after every "
    "step; relational operators are compared with std::optional on doubles including NaN. distinct = different histories.",
    [dict(src="optional.cpp", flags=["-O0"])],
    "ASan/UBSan execution + lifetime registry, throw injection and std::optional/model oracle",
    "Values of a swap interrupted by a throw are left unspecified when both sides are engaged.")

BEAST = ["-lfmt", "-lboost_regex", "-lboost_url", "-lpthread"]
chk("P12",
    "cases: random route tables (patterns sharing prefixes, params, wildcards, 5 methods) inserted in 4 orders, optimised "
    "at random points and moved, duplicates interleaved, 40 derived/mutated paths each; plus every ordering of every "
    "triple of 24 fixed patterns against 31 paths. distinct = different tables.",
    [dict(src="router.cpp", flags=["-O1"], libs=BEAST)],
    "ASan/UBSan execution + reference matcher and preference oracle over the set of routes",
    "Only the lookup result is judged, not the shape of the trie.")

chk("P13",
    "cases: random legal patterns with regex-special static text and names x derived/mutated paths, every legal static "
    "character against every byte, every legal name character, every route a router selects, path_info histories. "
    "distinct = different (pattern,path).",
    [dict(src="path_matcher.cpp", flags=["-O1"], libs=BEAST)],
    "ASan/UBSan execution + reference matcher oracle",
    "Patterns with repeated names are rejected by the parser, so path_info is judged with distinct names only.")

chk("P14",
    "cases: random histories (set/insert/erase/copy/move/clear/wire round trip, by field or by name in random case) over "
    "three maps, each compared with a model after every step; every standard field. distinct = different histories.",
    [dict(src="header_map.cpp", libs=BEAST)],
    "ASan/UBSan execution + case-insensitive multimap model",
    "Values with leading or trailing blanks (which the field storage trims) are not generated.")

chk("P15",
    "cases: random histories over three maps compared with a model after every step; generated query/form texts with "
    "percent encoding of every byte and mutations, every text up to length 6 over '=', '&', '+', '%', digits. distinct = "
    "different histories/texts.",
    [dict(src="query_map.cpp", libs=BEAST)],
    "ASan/UBSan execution + map model and independent decoder",
    "Characters outside the RFC 3986 query set may be accepted or rejected; if accepted they must decode to themselves.")

chk("P16",
    "cases: random histories (10-70 operations) with limits 0..4096 and unlimited, exact-fit and overflowing sizes; every "
    "prepared region is written in full under ASan. distinct = different histories.",
    [dict(src="dynamic_buffer.cpp", libs=BEAST)],
    "ASan/UBSan execution + byte-string model",
    "commit() is only called while the region of the last prepare() is valid.")

CODEC = BEAST + ["-lz", "-lbrotlienc", "-lbrotlidec"]
ZB = ["-O1", "-DFITORIA_HAS_ZLIB", "-DFITORIA_HAS_BROTLI"]
chk("P18",
    "cases: bodies (empty, constant, random, text, mixed; up to 200 KB, some 3 MB) x input chunkings (with empty chunks) x "
    "re-chunked compressed bytes, streams moved and assigned, source errors at every position. distinct = different "
    "(codec, body, chunking).",
    [dict(src="codec.cpp", flags=ZB, libs=CODEC)],
    "ASan/UBSan/LSan execution + independent zlib/brotli decoder oracle",
    "deflate means raw RFC 1951 data, the library's documented reading of the coding name.")

chk("P19",
    "cases: every truncation of small streams, single/double byte corruption, trailing garbage and second members, random "
    "and tiny inputs, 4-24 MB bombs; random chunkings. distinct = different (codec,input).",
    [dict(src="decode_hostile.cpp", flags=ZB, libs=CODEC, case_limit=20)],
    "ASan/UBSan execution + independent zlib/brotli decoder oracle, read-count bound and hang watchdog",
    "Data after a complete stream may be reported as an error or ignored; an empty input may be an empty body.")

URING = ["-DBOOST_ASIO_HAS_IO_URING"]
FILEDEFS = ["-isystem", os.path.join(os.path.dirname(os.path.abspath(__file__)), "shim_file"), "-DBOOST_ASIO_HAS_FILE=1"]
ASSERTS = ["-DBOOST_ENABLE_ASSERT_HANDLER"]
chk("P17",
    "cases: random bodies (sizes around 64 KiB buffer edges) x chunkings incl. empty chunks x injected source errors "
    "through vector, any, body, until-eof, chunk writer (short writes, write errors), request-parser (sized/chunked, "
    "truncated, limited, segmented) and io_uring file streams. distinct = different (body,chunking,fault).",
    [dict(src="streams.cpp", flags=["-O1", "-fno-sanitize=nonnull-attribute"] + ASSERTS + URING, libs=BEAST + ["-luring"])],
    "ASan/UBSan/LSan execution with fault injection + byte-sequence oracle and independent chunked-coding parser",
    "File streams are exercised only where io_uring is available at run time (reported as io_uring-unavailable otherwise).")

WEBF = ["-O0", "-fno-sanitize=nonnull-attribute", "-DFITORIA_HAS_ZLIB", "-DFITORIA_HAS_BROTLI"] + ASSERTS
WEB = CODEC + ["-lboost_json"]
chk("P32",
    "cases: random histories of builder calls (set/insert header by field or name, status, method, version, query, every "
    "body form, rebuild from the object, copies and moves, lvalue and rvalue forms) on response, test_request and request; "
    "all 61 status factories; test_response readers. distinct = different histories.",
    [dict(src="messages.cpp", flags=WEBF, libs=WEB)],
    "ASan/UBSan/LSan execution + object model",
    "Copies of a response share one message by design, so a builder taken from one copy is not followed through the other.")

chk("P21",
    "cases: random sequences of 1-11 requests on one unix-socket connection (8 methods, both versions, Connection tokens, "
    "sized/chunked bodies with smuggled requests, Expect, bad targets, unknown paths, handlers reading all/one chunk/none "
    "of the body) x pipelined/sequential x random segmentation, and requests cut at every kind of position. distinct = "
    "different sequences.",
    [dict(src="pipeline.cpp", flags=WEBF, libs=WEB)],
    "ASan/UBSan/LSan execution of the real server + independent client/parser, handler event log and connection model",
    "Contradicting Connection tokens and unknown methods are not generated.")

chk("P22",
    "cases: random response plans (any status, HTTP/1.0 and 1.1 on both sides, repeated/empty/8-bit/long headers, every "
    "body form, random chunkings, suspended streams, a wrong Content-Length set by the handler) served on keep-alive, "
    "pipelined and closing connections, GET/HEAD/POST/DELETE; bodies that fail or throw half way. distinct = different exchanges.",
    [dict(src="responses.cpp", flags=WEBF, libs=WEB)],
    "ASan/UBSan/LSan execution of the real server + independent RFC 9112 parser and response-plan oracle",
    "Connection and Transfer-Encoding set by handlers, header values with CR/LF and final 1xx statuses are not generated.")

chk("P24",
    "cases: random request sequences on two interleaved connections over 9 throw sites (handler before/after body, nested "
    "coroutine, extractor, failing extractor, to_response, middleware before/after) x 6 exception types (4 std, 2 not) x "
    "with/without exception_handler middleware x suspended or not; descriptor rounds with resets; server without a handler; "
    "in-process service. distinct = different sequences.",
    [dict(src="exceptions.cpp", flags=WEBF, libs=WEB)],
    "ASan/UBSan/LSan execution of the real server with injected exceptions + observed-exactly-once log, frame-lifetime and descriptor counters",
    "Without the exception_handler middleware the library closes the connection without a response; transport errors may also be reported to the exception handler.")

chk("P23",
    "cases: mutated and random byte streams ended by close/reset/half-close/waiting, 22 kinds of definitely malformed "
    "header, bodies and headers around the configured limits (sized/chunked), groups of 24 stalled clients of 8 kinds "
    "(silent, partial header/body/chunk, unread body, idle, not reading sized/streamed responses), connection churn, "
    "limit configurations. After every case another client must be served. distinct = different byte streams/groups.",
    [dict(src="hostile.cpp", flags=WEBF, libs=WEB, case_limit=60)],
    "ASan/UBSan/LSan execution of the real server under hostile clients and stalls + liveness probe, descriptor and handler-frame counters, limit oracle",
    "A Content-Length above the limit closes the connection without a response; timeouts are judged with 10 s of slack.")

chk("P25",
    "cases: generated programs (gen/scopes.py, 8 programs, 70 registered routes) that build scopes and routes as values "
    "(nesting, parameters and wildcards in prefixes, use/use_state in any order, siblings derived from one value, values "
    "served into several scopes), 40 random requests each with short-circuiting and wrong methods; duplicate "
    "registrations. distinct = different (route,path,trace).",
    [dict(src="scopes.cpp", flags=WEBF, libs=WEB)],
    "ASan/UBSan/LSan execution + middleware/handler trace oracle from a value model of the program",
    "use and use_state after serve on the same scope, and two states of one type at one level, are left unspecified.")

chk("P26",
    "cases: requests written as raw bytes with generated values (64-bit edges, reals, booleans in any case, arbitrary "
    "bytes percent-encoded, UTF-8 JSON in any member order) or with one defect (bad literal, missing/extra/renamed key, "
    "wrong content type, bad JSON, broken escapes, cut or malformed bodies), sized or chunked, in random segments; one "
    "extractor of every kind and six together. distinct = different (extractor,request,outcome).",
    [dict(src="extractors.cpp", flags=WEBF, libs=WEB)],
    "ASan/UBSan/LSan execution of the real server + generator-known value oracle and handler invocation log",
    "A pattern that does not provide the extractor's fields and a missing state may give any error status; keys without '=' are not generated.")

chk("P20",
    "cases: 1-8 threads x up to 150 records (random levels and filters) through one logger with 1-3 recording writers "
    "that return at once, hop or wait, buffers 0..100000, last reference dropped by any thread; loggers destroyed at once; "
    "the default logger replaced under load; sync and async (io_uring, stand-in with short and late writes) file and stdout writers; child processes that return "
    "from main. Run under ASan and under TSan. distinct = different observed delivery orders.",
    [dict(src="logger.cpp", flags=["-O1"], libs=BEAST),
     dict(src="logger.cpp", flags=["-O1"], libs=BEAST, san="tsan"),
     dict(src="logger.cpp", name="logger-files", flags=["-O1"] + FILEDEFS, libs=BEAST, san="tsan"),
     dict(src="logger.cpp", name="logger-uring", flags=["-O1"] + URING, libs=BEAST + ["-luring"])],
    "ASan/UBSan/LSan and ThreadSanitizer execution under stress + offline exactly-once/order checker over recorded deliveries",
    "Writers that throw and add_writer concurrent with logging are not exercised; failing writes are not injected.")

chk("P30",
    "cases: bodies (0 to 200 KB) encoded by zlib/brotli with lists of 0-4 codings in any order, any case, spacing and "
    "number of field lines, sized or chunked, in random segments, read as stream, string or bytes; lists with one of 12 "
    "unsupported names; truncated, bit-flipped and cut bodies. distinct = different (list,sizes).",
    [dict(src="decompress.cpp", flags=WEBF, libs=WEB)],
    "ASan/UBSan/LSan execution of the real server + independent codec chain as oracle over the handler's view",
    "Empty list elements are not generated; damage in an outer coding that does not change what the inner one decodes may pass.")

chk("P28",
    "cases: handshakes with every defect of RFC 6455 4.2.1 the library checks, other routes and refusing handlers, then "
    "another request; sessions of up to 7 messages each way (sizes around 125/126/4096/65536, up to 1 MB), fragmented, with "
    "pings in between, random segments, 6 ways of ending; 15 kinds of protocol violation; cuts inside frames; idle "
    "timeouts; 20 sessions at once. distinct = different sessions.",
    [dict(src="websockets.cpp", flags=WEBF, libs=WEB, case_limit=90)],
    "ASan/UBSan/LSan execution of the real server + independent RFC 6455 client, session event log and message-sequence oracle",
    "Keys of up to 24 characters that are not base64 of 16 bytes, repeated Connection lines and frames sent before the 101 are not generated; messages stay below the 16 MB limit.")

chk("P27",
    "cases: servers on a thread pool or io_context of 1-8 threads, 2-11 client threads x 10-50 requests (echo, streams, "
    "extractors, exceptions, pipelining, close/reset) and websockets, random suspensions in handlers, logger and "
    "decompress middleware; request timeouts of 5-40 ms firing around the traffic; contexts stopped and destroyed under "
    "load; connection churn. Run under TSan and under ASan. distinct = different runs by order and amount of what was answered.",
    [dict(src="concurrency.cpp", flags=WEBF, libs=WEB, case_limit=90),
     dict(src="concurrency.cpp", flags=[f if f != "-O0" else "-O1" for f in WEBF], libs=WEB, san="tsan", case_limit=120)],
    "ThreadSanitizer and ASan/UBSan/LSan execution under concurrent stress + per-client response oracle, exactly-once log, descriptor and handler-frame counters",
    "The executor must be able to hold a strand (the default any_io_executor can); TLS is not part of the stress.")

chk("P29",
    "cases: lives of files (15 extensions, any name, sizes 0 to 2.5 MB around buffer sizes, times 1906-2100) with up to 16 "
    "requests (14 kinds of Range with 64-bit edges, If-None-Match lists, HEAD, overridden types) between changes of "
    "content, size or time; any (offset,size) window; uploads; read errors, shrinking and growing files; several clients. "
    "Once with stand-in files (short, late and failing transfers), once with real io_uring files. distinct = different (range,size).",
    [dict(src="static_files.cpp", flags=WEBF + FILEDEFS, libs=WEB),
     dict(src="static_files.cpp", name="static_files-uring", flags=WEBF + ["-DBOOST_ASIO_HAS_IO_URING"], libs=WEB + ["-luring"])],
    "ASan/UBSan/LSan execution of the real server + byte, range, entity-tag and header oracle over known files",
    "If io_uring is unavailable only the stand-in files are exercised; If-Modified-Since is compiled out here (needs std::chrono::parse); "
    "a range reaching behind the end is not satisfiable by design; of several ranges the first is served.")

chk("P31",
    "cases: sequences of random requests (methods, encoded paths, queries, headers, sized/chunked bodies, HTTP/1.0, "
    "Expect, plans with failing and throwing handlers), pipelined or not, and damaged ones, sent over TCP (v4, v6), "
    "UNIX sockets and TLS over both (1.2/1.3, ciphertext cut anywhere) and compared byte by byte, with the handlers' views; "
    "the in-process interface against a socket; peers on random loopback addresses and named sockets; failing binds; "
    "9 kinds of hostile TLS clients; churn; websockets on every transport. distinct = different exchanges.",
    [dict(src="transports.cpp", parts=[("transports_part.cpp", [f"-DPART={i}"]) for i in (1, 2, 3)],
          flags=WEBF + ["-DFITORIA_HAS_OPENSSL"], libs=WEB + ["-lssl", "-lcrypto"], case_limit=90)],
    "ASan/UBSan/LSan execution of the real server on all transports + differential oracle over bytes and handler views, peer and descriptor oracle",
    "The in-process interface is compared for HTTP/1.1 requests with plain query characters (test_utils writes queries unencoded and always HTTP/1.1).")

chk("P33",
    "cases: 1-4 clients x up to 8 requests (8 methods, 4 patterns, any status, thrown exceptions, hostile User-Agent values, "
    "delays) over UNIX and TCP sockets through 0-2 logger middlewares with short-circuiting middlewares around them, "
    "1-3 server threads, filtered and default-less loggers; every exchange repeated without the middleware and compared "
    "byte by byte; the in-process service. distinct = different (method,pattern,status,agent).",
    [dict(src="accesslog.cpp", flags=WEBF, libs=WEB)],
    "ASan/UBSan/LSan execution of the real server + exactly-once record oracle over a recording writer, differential comparison with and without the middleware",
    "What is recorded for a request whose handler throws through the middleware is left unspecified; several User-Agent lines are not generated.")

chk("P34",
    "cases: operations reporting nothing, integers, strings, move-only and copy-counting values, or an error of 5 "
    "categories (zero failing, non-zero not failing), completing at once, later or on another thread, through 7 completion "
    "tokens; cancellation through slots and objects; bound executors and allocators; socket transfers; operations "
    "abandoned with their context. distinct = different (type,token,completion,error).",
    [dict(src="async_op.cpp", flags=["-O1"], libs=BEAST),
     dict(src="async_op.cpp", flags=["-O1"], libs=BEAST, san="tsan")],
    "ASan/UBSan/LSan and ThreadSanitizer execution + exactly-once completion and outcome oracle over instrumented operations",
    "Operations reporting more than one value, and signatures without an error code, are not supported by the adaptor.")

chk("P35",
    "cases: streamed responses of 1-12 pieces (1 byte to 200 KB) released one by one; 40 MB streams to clients that do not "
    "read and then do; 8 kinds of endless header, chunk, extension and trailer against configured limits; conversations of "
    "2100 exchanges on one or many connections; flushed pieces and 30 MB streams through every codec. Heap in use, the "
    "producers' progress and the clients' input are sampled throughout. distinct = different (sizes,transport,kind).",
    [dict(src="streaming.cpp", flags=WEBF, libs=WEB, case_limit=60)],
    "ASan/UBSan/LSan execution of the real server and codecs + heap-in-use, producer-progress and arrival monitors",
    "The bounds are generous multiples of the piece sizes and limits; the request side is bounded by the body limit (the library collects a request body before it hands it over).")
