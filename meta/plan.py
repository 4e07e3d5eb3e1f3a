PLAN = {
"C01": """Real engine, memory queue and deduper over a simulated web. `crawl/complete` (d 2/3): 15 configurations — 8 link
graphs (chain, diamond, cycles, duplicates, a missing page), start lists with duplicates or none, workers 1–3, concurrency
0–2; `-polite` (2/3) with robots.txt; `-fine` (1/2) with every statement of engine and queue as a scheduling point;
`complete-parts` (0/1): pages that differ in scheme, host, port, path, query or only in spelling. Oracle: the set of
reachable pages is computed from the graph; each is fetched and scraped exactly once, nothing else is, Run returns nil.
Tests see one schedule of one tiny site.
`crawl/many`: sites of up to 1100 pages of five shapes, up to 20 workers.
`crawl/long`: sites whose URLs are up to 70000 bytes long and differ only near their ends.
`crawl/enqueue` (1/2): URLs that reach the engine through Engine.Enqueue, called before Run, by scrapers or by another goroutine. `crawl/starts`: up to 2100 start URLs.""",
"C02": """`crawl/cancel` (3/4): the cancellation is one of the scheduled events, so it happens between any two operations;
`crawl/fault` (2/3): each component (fetch, scrape, limit, dedupe, queue) fails at its n-th call; `fault-cancel-polite` (2/3):
both, with robots.txt; `crawl/hang` (2/3): robots.txt never answers and the default client keeps its time limit; `crawl/stuck` (1/3): each part (client, body, scraper, limiter, robots.txt, crawl delay, interval limiter) blocks until its context ends. Oracle: Run returns (a hang is a state without runnable goroutine or timer), no panic, no goroutine
left, no component called after the return.""",
"C03": """`crawl/error`, `error-polite`, `error-parts` (dequeue, acknowledge, close, dedupe failures), `error-kinds` (errors that
look special: io.EOF, context errors of others, temporary, wrapped), `cancel-error`, `error-stops` (endless chain: at most 24 fetches
after a failure; `error-stops wide`: of a queue of 60 pages at most 8 are taken after a failure or cancellation), a queue whose Close always fails (`error-parts`), `bad-start` (start URLs that cannot be crawled are refused before anything is fetched). Oracle: Run's error wraps a failure
that was delivered; nil iff nothing failed and nobody canceled. d 1–3/2–4.""",
"C04": """`crawl/concurrency` (2/3): the number of pages between start of fetch and end of scrape never exceeds n, for pages that
fail, are missing or refused; `concurrency-reached` (1/2): every fetch waits until n are in progress, so a stricter limit hangs.""",
"C05": """`gate/impolite` (1/2), `gate/polite` (1/2): every subset of excluded and refused pages, fast and slow limiters;
the order of matcher, queue, limiter and fetch events is checked per URL. `gate/spelling` (0/2): nine spellings of links and starts.
`gate/shapes` (0/1): a site of URLs of 26 shapes (ports, queries, escapes, user info, IP addresses), any one of which is excluded or refused.
`gate/enqueue` (1/2): the same through Engine.Enqueue; `gate/many`: pages of up to 2100 links of which every k-th is excluded.""",
"C06": """`polite/many`: up to 600 hosts with crawl delays of their own. `polite/crawl`, `polite/hosts` (1/2) under fake time: robots.txt texts (groups, rules, delays, 404, 403), slow robots.txt,
1–3 hosts; an independent robots.txt reader says what is allowed; spacing of fetches is compared exactly. `polite/waits` (1/2): waiters of one host come, wait and give up at all times, the crawl delay
is kept between those that go through and nobody waits for one that gave up. `polite/impolite`: no request for robots.txt.
`polite/shapes` (0/1): a rule for any of 20 shapes of URLs, crawl delays of up to 50 minutes.""",
"C07": """Instrumented bodies of up to 17 MB. `bodies/crawl` (1/2), `bodies/cancel`, `bodies/robots` (2/3), `bodies/large` (0/1, bodies larger than any buffer):
every page outcome (status, read error, response with error, retry) times scraper behaviour (ignores, reads part, parses, queries, fails).
When Run has returned every body is at its end (or at its read error) and closed.""",
"C08": """`queue/*`: all multisets of programs of Enqueue (batches), Dequeue and Close for 2–3 goroutines, cancellation as an event,
all schedules with d 2–3/3–5, statements as scheduling points in the fine ones. Oracle: a linearizability search against the sequential FIFO queue, in which blocked calls
must be blocked in the final state. Batches are overwritten by their owner after Enqueue. `queue/history`: all histories of one goroutine of 8/10 operations, for four initial sizes.
`queue/many`: rounds of enqueuing batches of up to 1000 URLs and dequeuing up to 5000, up to 20000 URLs in all.
`queue/batches`: batches of up to 300 URLs of two goroutines stay together, while others wait and acknowledge.""",
"C09": """As C08 with Wait and Done in the programs: Wait is explained iff the number of unacknowledged URLs is zero at some point of
its interval, and a Wait that stays blocked must have unacknowledged URLs; panics count. `queuewait/history`: all histories of one goroutine of 7/9 operations; Wait must not block at the end of those that leave nothing.
`queuewait/many`: up to 70000 unacknowledged URLs, more than narrow counters hold.""",
"C10": """`dedupe/{map,bf}-2`, `-3` (2/3–4, statements are scheduling points): sorted programs of batches per goroutine, exactly one caller gets a URL;
`-history`: sequential histories of batches with all filter sizes (false positives of the bloom filter allowed, repetitions not);
`-urls`: all batches of up to three of 20 URLs that differ in one component only, asked again after the results were overwritten; `dedupe/crawl`: in an engine with several workers.
`dedupe/many`: up to 150000 URLs in batches, offered twice. `-canceled` (2/4): calls that are canceled at any point; what they do not return, others get.
`dedupe/long`: URLs of up to 70000 bytes that differ in one.
`dedupe/batches` (1/2): two or three callers with overlapping batches of up to 1100 URLs.""",
"C11": """`url/path`, `url/parts`: all URLs over an alphabet of path segments (dots, encoded slashes, percent triplets), ports, hosts, user info,
queries and fragments; an independent reading (`resourceOf`) says which denote the same page; normal form must be idempotent, denote the same page, and be equal
for equal pages. `url/crawl`: the same through scraped links; `url/handmade`: url.URL values of all kinds that never went through a parser, returned by a scraper.
`url/long`: the same spellings in URLs of up to 70000 bytes.""",
"C12": """`match/*`, `limitmatch/*`: all patterns up to a length over {literal, *, ?, /} times all URLs (`match/patterns`: all patterns of at most 5/6 symbols over h / a * ? . [ ü; `match/invalid`: expressions that must be refused); reference glob; host and path and regexp matchers,
limiters limit exactly what the matcher of the same pattern matches (observed as a delay under fake time). `match/crawl`: both inside an engine.
`match/long`: hosts and paths of up to 70000 bytes.""",
"C13": """`rate/2`, `rate/3`, `rate/cancel`, `rate/abandoned`, `rate/crawl` (2–3/3–4): callers at chosen times under fake time; an exact
token bucket is the reference: never more than rate·t + burst in any window, nobody waits longer than the bucket requires, per-host limits are per host,
a canceled waiter returns at once with an error and does not use up capacity.
`rate/many`: rates up to 30000/s, thousands of calls, every call allowed when an exact bucket allows it.""",
"C14": """`fetch/sequences`: all sequences of 7 (9) attempt outcomes for 1–3 (4) attempts; `fetch/outcomes`: all pairs of 26 outcomes (statuses, errors that are temporary, time out, wrap either, or wrap contradicting ones);
`fetch/backoff`: all combinations of limits; `fetch/cancel`: cancellation before, in and between pauses; `fetch/hang`: the default client's time limit, servers that answer late, never or only half. Exact instants of attempts under fake time are compared.
`fetch/patience`: up to 40000 attempts, limits up to years: the pause neither overflows nor ends.""",
"C15": """`fetch/page`, `fetch/large`, `fetch/package`, `fetch/malformed`, `fetch/errors`: URLs, user agents, header sets, delivery of the body in all partitions of reads with and without early EOF,
then each way to consume the page; `fetch/requests`: every attempt has a request of its own (a client that changes what it gets spoils no other), with the caller's context.
`fetch/long`: URLs and headers of up to 70000 bytes.""",
"C16": """`robots/verdict`: all robots.txt texts of up to 2 groups with up to 2 rules over an alphabet of paths, agents; `robots/hour` (horizon 100 h):
the text changes at any time, it is re-read after an hour and not before; `robots/hosts` (1/2): many hosts, http and https, failures and absence. Reference reader as C06.
`robots/many`: up to 900 hosts (the cache holds 1000; eviction is not judged).
`robots/spelling` (0/0): all pairs of 46 spellings of rules and URLs (encoded and raw characters, upper and lower case triplets, encoded delimiters) as disallow and allow rules, in four ways of writing the file.
`robots/long`: robots.txt files of up to 1.2 MB, whose last rule counts, rules of up to 30 kB.""",
"C17": """`cache/bypass`: methods, range and no-store requests; `cache/fidelity`: all framings (lengths, chunked, HTTP/1.0, trailers), header sets (those the cache itself uses in stored entries too) and statuses — the cached response
equals the origin's; `cache/histories`: sequences of requests over methods and URLs, a response only answers its own.""",
"C18": """`store/headers`: all combinations of response headers (Cache-Control lines, Pragma, Expires, Vary, authorization ...), `store/status`: all statuses 100–599, `store/keys`:
pairs of URLs. Reference: what RFC 9111 section 3 allows to store. Observed at the Storage.
`keys/many`: 900 pages stored and asked for again, also after reopening a disk.
`keys/long`: URLs of up to 70000 bytes; `keys/huge`: 200000 pages, so many that keys of 32 bits would collide.""",
"C19": """`fresh/directives`: all combinations of response and request directives with ages around every boundary (±1 s); reference: RFC 9111 section 4.2;
`fresh/updated`: freshness after a validation, `fresh/vary`: selection by headers.""",
"C20": """`aggressive`: all histories over methods, statuses, directives and elapsed time for the aggressive policy.""",
"C21": """`validate/fields` includes 304s that leave out Date, ETag or Cache-Control. `validate/2`, `/3`: all histories of 2 (3) requests with validators, 304, 200, 5xx and errors of the origin, conditional requests of the caller, ways to read
the response; the reference says what the origin must be asked and what the caller must get. 1.7 million histories in the quick tier. `validate/fields`: 13 fields with 6 values in the stored response and in the 304: end-to-end fields are replaced, others kept.""",
"C22": """`complete/reads`: all partitions of reads with errors (truncation, wrapped EOF, cancellation), early EOF, early close; `/large`: sizes around buffers, up to 17 MB; `/mutate`: the caller changes what it
got; `/faults`: the storage fails. A stored entry is always the complete body.""",
"C23": """`concurrent/*` (1–2/2–3, fine in the files of the cache): 2–3 callers of the same or of different URLs, validation, different variants, failures, bodies longer than any buffer that are still being read when their entry is replaced; every caller gets a response
of the origin that was valid in its interval, complete, and its own copy; the origin is not asked more often than callers.""",
"C24": """`crash/*`: histories of up to 3 (4) stores, sweeps and reopenings with a crash before *every* file operation and, at the crash, every surviving combination of unsynced data (torn prefixes
included) and directory operations that POSIX allows; up to 2 (3) crashes in a row; `crash/concurrent *`: 2–3 writers. After reopening every key has a value whose store was not undone: the last one
completed or one overlapping the crash, never a mixture, never anything that was not stored. `conformance/*` binds the model file system to the real one.""",
"C25": """`disk/*` (17 configurations, d 1–2/2–3): goroutines storing, loading, waiting, with expiry, surplus and warm-up at the same time;
linearizability search against a register per key with evictions where the options allow them; time may pass at any scheduling point in the "soon" scenarios.""",
"C26": """`sweep/clock`: entries from the future (a clock that was set back). `sweep/2`, `/3`, `/4` entries: all combinations of ages, sizes, maximum size, maximum age, and files that change while the sweep runs; `sweep/defaults`.
Reference: exactly the expired files go, then the oldest until the rest fits, and no more.
`sweep/many`: directories of up to 1000 entries of which none, some or all are expired or too many.
`sweep/huge`: entries of 512 MB to 8 TB, sizes that 32 bits do not hold.""",
"C27": """`faults/*` (d up to 4/6): every file operation fails in turn, a power failure may follow; Store, Load report it, leave the old or the new value, no temporary file, no leak of open files;
`faults/round trip`: all sizes and options; `faults/damaged files`: truncated or altered files are errors or repaired, never wrong data.""",
"C28": """`open/values`: entries of 0 to 70000 bytes, old and from the future. `open/arguments`, `open/*`: directories with foreign files, subdirectories, unreadable entries; `open/read errors`; `close/*` (d 2/3): Close, Wait, Store, Load
at the same time, with contexts that end.
`open/many`: directories of up to 1000 files of which few or most are entries. `close/while removing` (3/4): nothing is removed any more once Close returned.""",
"C29": """`links/selectors`: selectors that resemble each other, one after the other. `links/markup`: links in all kinds of markup (templates, comments, tables, scripts, duplicate attributes). `links/3`, `/4` (`/5`): all references made of up to 4 (5) pieces of an alphabet times bases; reference: RFC 3986 section 5 implemented from its text;
`links/elements`: all documents of up to 4 (5) elements; `links/known`: a table with known results.
`links/many`: documents of up to 5000 links; white space around links (`links/known`, alphabet).
`links/long`: links of up to 70000 bytes.""",
"C30": """`scan/2`, `/3` (`/4`): all documents of up to 3 (4) elements over an alphabet times 30 types (nested structs, slices, pointers, numbers, attributes), fresh and dirty destinations;
reference scanner over a reference DOM and selector matcher. `scan/values`: 70 texts as every scalar type, from text and attribute. `scan/names`: types of one name. `scan/kept`: values scanned earlier do not change when their destination is scanned again. `scan/refused`: what cannot be scanned is an error, first and later, and harmless to others.
`scan/many`: documents of up to 5000 elements in four shapes.""",
"C31": """`list/selectors`: groups of selectors that differ in case, spaces or after up to 4500 bytes, one after the other, on pages, lists and in tags. `list/2`, `/3`, `/4`: all lists of nodes (duplicates, nested, any order) times selectors and operations.
`list/many`: documents of up to 5000 elements, thousands of selectors.""",
"C32": """`concurrent/*` (fine, d 1/2): goroutines query, scan and read the text of the same and of different pages while the body arrives in pieces; results equal the sequential ones.""",
"C33": """`json/*`: JSON scrapers shared by goroutines, writers in two steps; every line is the encoding of one page, complete, and lines are not mixed. `json/pages`, `json/refused`; `json/select`: all sequences of up to 4 selectors (valid, empty, invalid, matching nothing).
`json/crawl` (1/2): an engine with the scraper, selectors and a matcher over a site of 8 pages; output and requests are those of a reference crawl in every schedule, a failed write is the crawl's error.
`json/many`: lines of up to 25 MB, up to 300 pages.""",
"C34": """`cdp/pool`, `cdp/fail-close` (1/2), `cdp/idle` (0/1), `cdp/canceled` (1/3, a canceled request between two others), `cdp/first` (1/1, every source line of the client a scheduling point) against the simulated browser: no target has two connections at a time, idle targets are reused, at most ten kept, every connection is closed.""",
"C35": """`cdp/order`: every order of the browser's messages that respects their dependencies, for 13 documents (subresources, frames, redirects, polls, cookies of all kinds); `cdp/schedules`, `cdp/reuse*`
(a first request complete or canceled at any message), `cdp/fail` (each call, message or connection fails, the navigation is aborted, the browser stops to answer); `cdp/status`: every status from 200 to 599 and some others.
`cdp/large`: documents of up to 3 MB, 500 headers and cookies, 100 subresources.""",
"C36": """`cdp/request`: all combinations of 11 URLs, 5 header sets, 6 cookie sets, twice on one target; the calls the browser received are compared with the request.
`cdp/long`: URLs and headers of up to 70000 bytes.""",
"C37": """Race-detector build. `race/*` (fine, d 1/2): engines, caches, disk store, pages, scanner, limiters, queue, fetcher and cdp client shared by goroutines; the scheduler's own hand-offs are hidden
from the detector (RaceDisable), so that each explored schedule shows exactly the happens-before edges of the code. `vsync` primitives report theirs.""",
"C38": """`contract/crawl`, `contract/queue-fails` (1/2): an auditing queue checks every call of the engine: each dequeued URL acknowledged exactly once, after what it led to was enqueued, nothing after Close, Close once, with the crawl's context.""",
"C39": """`crawl/temporary` (1/2): components fail 1–3 times with errors that are temporary, that are timeouts which do not say so, or that are neither. Two open findings (section 6): the engine does not retry scraper and deduper errors although documented.""",
"C40": """`page/broken`, `page/pieces`: a body that fails after every number of bytes, with three errors, in pieces of four sizes with and without empty reads and with the error alone or together with the last piece; every sequence of two page operations (9 operations, JSON scraper included); the reference is that a broken page yields its error and nothing else and a complete one what it yields in one piece. `crawl/broken` (1/2): six scrapers, each of three pages broken.""",
"C41": """`crawl/cached`, `crawl/cached, storage`, `crawl/stopped` (1/2), `crawl/disk` (1/2): two crawls of a site by real engines through the real cache, the first one complete, canceled by a scheduled event or failing,
then a pause that leaves the responses fresh or makes them stale; reference: the origin counts requests and conditional requests per page, a page the first crawl received is expected in the cache, its validation exactly when stale.
`crawl/crash` (1): the first crawl crashes before every operation on the simulated disk, the second one starts from every image the crash may leave.""",
"C42": """`browser/crawl` (1/2): a real engine crawls a site of 4 or 8 pages through the real browser client and the simulated browser; each page must be requested and scraped once, from its own document. `browser/stopped` (0/1): the crawl ends in one of 10 ways at each of up to 60 calls (a browser that no longer answers a new target or a dial among them); nothing may be left open, and the next crawl with the client must be complete.""",
"C43": """`config/defaults` (0/1): configurations with parts left out, with the default agent or another one set by the program; the crawl must fetch what the given parts allow, once, with the right client and agent, and in virtual time take exactly the depth of the site without limit, the number of pages with limit 1.""",
"C44": """`helper/fetch`: every sequence of answers until the helper stops; a stand-in for testing.TB records fatal messages.""",
"C46": """`suite/queue` (1/2): the whole suite, run by package testing under the scheduler, with the in-memory queue, a queue that adds URLs one by one, and queues
with one of 26 faults. Oracle: it passes exactly for the first two, whatever the schedule.""",
"C45": """`options/cache`: all sequences of up to 3 (4) options, with and without client, a second request after a minute up to 100 hours;
`options/disk`: all sequences of up to 3 (4) of 13 options, four sets of entries, the directory is compared before and after each sweep of an hour of virtual time.""",
}
AFTER = """
## 5. Limitations, and what is not judged

* *Memory model*: interleavings are sequentially consistent; races are C37's subject. File operations of the model file system order goroutines for the race detector.
* *Bounds*: schedules with more deviations than stated, larger graphs, documents, histories than stated.
* *Map iteration order* in the code under test is not controlled.
* *Queues*: a custom queue whose Close fails voids C38's contract. *Robots*: wildcard rules, the scheme in the robots cache's key.
  A trailing or duplicate slash counts as the same page, as the code documents.
* *Cache*: the Age header; request max-age together with max-stale and exact equality at boundaries; quoted directive values; obsolete date formats; collisions of murmur64 keys.
* *Disk*: files removed by others; temporary files left by a crash (never served, never removed); closing twice.
* *Pages*: `<base href>`, non-ASCII characters and inner white space in references.
* *Limiters*: when several waiters are canceled x/time/rate does not restore every slot; only a lone canceled waiter is judged (C13).
* *antcdp*: every cookie of the browser is returned; Set-Cookie of the response; dead targets return to the pool; same-document navigation; client-side redirects; the real WebSocket and HTTP transport of mafredri/cdp;
  surplus idle tabs stay open in the browser.
* *DefaultFetcher* keeps the pointer DefaultClient had when the program started.

Corrections of the machinery after false alarms (the property or model was wrong, never the code): `http://h` and `http://h/` may share a cache entry; the failure of stopLoading is not an error of the request; an already canceled
context with nothing to wait for may go either way; in C39 retries are judged only for components documented to be retried; lone cancellations in C13 (above);
a crawl that is canceled from its very last page may return nil (`error-stops wide`, thorough);
`robots/many` (thorough) ran out of the scheduler's table of goroutines, which is larger now.
"""
