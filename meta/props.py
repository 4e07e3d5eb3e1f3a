"""The properties: source of properties.jsonl, MANIFEST.json and checks.json (gen.py)."""

P = []


def prop(id, title, statement, over, quant, why, files, mech, pkg=None, race=False, observe=None,
         level="model_checking", technique=None, note=None, rule=None, assumptions=None, state=None, na=None, quick=None, thorough=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, pkg=pkg, race=race,
                  observe=observe or [], level=level, technique=technique, note=note, rule=rule, assumptions=assumptions or [], state=state or [], na=na,
                  quick=quick, thorough=thorough))


SCHED = "stateless model checking: the real code under a controlled scheduler, all schedules within a deviation bound"
ENUM = "exhaustive enumeration of bounded inputs and histories on the real code against a reference model"
BOTH = "stateless model checking: all schedules within a deviation bound times all environment choices, on the real code"

A_SCHED = ["Go's memory model is explored as sequential consistency: weak-memory effects are left to the race detector runs of C37.",
           "Scheduling points are synchronization operations, goroutine creation, channel operations, environment calls and, in fine scenarios, every statement."]

# ---------------------------------------------------------------- engine

prop("C01", "A crawl fetches and scrapes every reachable page exactly once",
     "When no component fails and nobody cancels, Run returns nil and, by then, every page reachable from the start URLs, or from URLs a program or a scraper passed to Enqueue, has been fetched and handed to the scraper exactly once and no other page was fetched. This holds for every number of workers, every concurrency limit and every interleaving of the workers. URLs that differ only in spelling count as one page, duplicates among the start URLs or links included.",
     ["schedules", "inputs", "configurations"], "all interleavings (bounded deviations) of workers, page goroutines and queue operations, over link graphs with cycles, diamonds, duplicates and missing pages, workers 1-3, concurrency 0-2",
     "The existing engine tests crawl one tiny static site with whatever interleaving happens; losing a URL needs a particular order of dequeue, enqueue, acknowledge and close.",
     ["engine.go", "queue.go", "dedupe.go", "internal/normalize/url.go"],
     [("engine loop: dequeue, process, enqueue, acknowledge", "engine.go"), ("deduper consulted before a URL is queued", "engine.go"), ("queue counts unacknowledged URLs", "queue.go")],
     pkg="hant", observe=["requests seen by the Client", "pages seen by the Scraper", "result of Run"], technique=SCHED,
     rule="every (graph, starts, workers, concurrency) of the table times every schedule with at most the stated deviations from 3 base schedules; non-trivial: at least one page was fetched",
     note="Every schedule with at most 2 (quick) / 3 (thorough) deviations from three base schedules is run on the real engine, queue and deduper; graphs have up to 6 pages.",
     assumptions=A_SCHED)

prop("C02", "Run always returns and leaves nothing of the crawl behind",
     "Run returns in every case: whatever subset of fetches, scrapes, limits or robots.txt lookups fails and whenever the context is canceled, there is no interleaving in which it hangs or panics, and hosts that never answer the request for robots.txt do not keep it either; clients, scrapers and limiters that wait for the end of their context are released by the end of the crawl's context and by the first failure. When it has returned, no goroutine of the crawl is left and no component is called any more.",
     ["schedules", "fault_sequences", "configurations"], "all interleavings (bounded deviations) times every failing component times cancellation at every point, over workers 1-3, concurrency 0-2, polite and impolite",
     "A hang needs a cancellation or failure between two particular operations of two goroutines; tests cancel once, before the start.",
     ["engine.go", "queue.go"],
     [("shared error group and context stop all workers", "engine.go"), ("every dequeued URL is acknowledged", "engine.go"), ("closing the queue wakes everyone", "queue.go")],
     pkg="hant", observe=["return of Run", "goroutines alive afterwards", "component calls after the return"], technique=SCHED,
     rule="every configuration times every fault times every schedule, the cancellation being one of the scheduled events; all are non-trivial",
     note="A hang is detected exactly (no goroutine can continue and no timer is pending), not by a timeout.", assumptions=A_SCHED)

prop("C03", "Failures are reported by Run and stop the crawl",
     "If the fetcher, scraper, limiter, deduper, queue or robots.txt lookup fails, Run returns an error that wraps a failure that happened, never nil, and if nothing failed and nobody canceled it returns nil. After a failure all workers stop: only URLs already being handled are still fetched. Canceling makes Run return the context's error unless the crawl was complete.",
     ["schedules", "fault_sequences", "configurations"], "all interleavings (bounded deviations) times each failing component and operation count, workers 1-3, endless link chains for the stopping clause",
     "Tests check that a failing scraper is reported with one worker; a swallowed error or a worker that keeps crawling shows only with several workers and particular orders.",
     ["engine.go"], [("error group shared by workers and pages", "engine.go"), ("start URLs are checked before anything is queued", "engine.go")],
     pkg="hant", observe=["error of Run", "fetches after the first failure"], technique=SCHED,
     rule="every configuration, fault and schedule within the bound; non-trivial: a failure was delivered to the engine",
     note="The stopping clause is decided on endless chains: at most 24 fetches after the failure.", assumptions=A_SCHED)

prop("C04", "Never more than the configured number of pages is processed at a time",
     "With a concurrency limit n, at no moment are more than n pages between the start of their fetch and the end of their scrape, in any interleaving and however pages end. The limit is not stricter than asked: n pages can be in progress at the same time, and without a limit any number.",
     ["schedules", "configurations"], "all interleavings (bounded deviations), n in 0-3, workers 1-3, pages that fail, are missing or are refused by the limiter",
     "The maximum depends on the interleaving; the existing concurrency test observes a few schedules.",
     ["engine.go"], [("semaphore acquired before and released after a page", "engine.go")],
     pkg="hant", observe=["number of pages in progress"], technique=SCHED,
     rule="every configuration and schedule within the bound; non-trivial: the limit was reached", note="The converse clause makes every fetch wait until n are in progress.", assumptions=A_SCHED)

prop("C05", "Matcher and limiter gate every URL before it is fetched",
     "A URL the matcher excludes is never queued, limited, fetched or scraped. Every fetch of a URL comes after the limiter was asked about that URL and allowed it, and if the limiter returns an error the URL is not fetched. Both see URLs in normal form however links spell them, start URLs included.",
     ["schedules", "inputs", "configurations"], "all interleavings (bounded deviations) over sets of excluded and refused pages, with slow and fast limiters, polite and impolite, and 9 spellings per link",
     "Tests match and limit single URLs outside the engine; the order limiter-then-fetch with several workers is not observed.",
     ["engine.go", "matchers.go", "limiters.go"], [("matcher filters batches before dedupe and enqueue", "engine.go"), ("limit precedes fetch", "engine.go")],
     pkg="hant", observe=["calls of Matcher, Limiter and Client"], technique=BOTH, rule="every configuration, set and schedule within the bound; all are non-trivial", note="Order of events is recorded inside the components.", assumptions=A_SCHED)

prop("C06", "A polite crawl obeys robots.txt, an impolite one never asks for it",
     "Unless it is impolite, the engine obtains a host's robots.txt before it fetches any page of that host, never fetches or scrapes a page it disallows for the crawler's user agent, and fetches all reachable pages it allows. Fetches of one host are at least its crawl delay apart, however many workers are busy. An impolite engine requests no robots.txt and applies none of this.",
     ["schedules", "inputs", "configurations"], "all interleavings (bounded deviations) under fake time over robots.txt texts (rules, groups, delays, 404, 403), slow robots.txt responses, 1-3 hosts",
     "Tests call the robots cache directly with one request; spacing and first-contact order are properties of concurrent requests.",
     ["engine.go", "internal/robots/cache.go"], [("allowed checked before limit and fetch", "engine.go"), ("crawl delay slots per host", "internal/robots/cache.go")],
     pkg="hant", observe=["requests seen by Client and by the default client, with times"], technique=BOTH, rule="every configuration, robots.txt and schedule within the bound; all are non-trivial", note="Time is simulated, so delays are compared exactly.", assumptions=A_SCHED)

prop("C07", "Every response body is read to the end and closed when Run returns",
     "For every page response the engine obtained, successful or not, retried or not, and whatever the scraper read, parsed or returned, the body has been read until its end (or its read error) and closed by the time Run returns. This also holds when the crawl fails or is canceled; robots.txt responses are closed as well.",
     ["schedules", "fault_sequences", "inputs"], "all interleavings (bounded deviations) times page outcomes (status, read error, scrape error, response with error), scraper behaviours, retries and cancellation",
     "Tests check the body of one successful fetch.",
     ["engine.go", "fetcher.go", "page.go", "internal/robots/cache.go"], [("page closed after scrape", "engine.go"), ("failed attempts drained", "fetcher.go"), ("parse closes", "page.go")],
     pkg="hant", observe=["reads and closes of response bodies"], technique=BOTH, rule="every configuration, outcome, scraper behaviour and schedule within the bound; non-trivial: at least one body was handed out", note="Bodies are instrumented.", assumptions=A_SCHED)

prop("C38", "The engine keeps its side of the queue contract",
     "With any queue, every URL the engine dequeued is acknowledged exactly once, after it was handled and before Run returns, also when pages fail or the crawl is canceled. The queue is closed when Run returns and not used afterwards, and an error of the queue's Enqueue or Dequeue is what Run returns.",
     ["schedules", "fault_sequences"], "all interleavings (bounded deviations), every failing component, the k-th Enqueue/Dequeue failing, cancellation at every point",
     "Tests only use the in-memory queue, which forgives double or missing acknowledgements.",
     ["engine.go"], [("deferred acknowledge", "engine.go"), ("close by every worker", "engine.go")],
     pkg="hant", observe=["calls of a custom Queue"], technique=SCHED, rule="every configuration, fault and schedule within the bound; all are non-trivial", note="An audited queue wraps the in-memory one.", assumptions=A_SCHED + ["A queue whose Close fails voids the contract."])

# ---------------------------------------------------------------- queue, dedupe

prop("C08", "The in-memory queue is a linearizable FIFO queue",
     "Every concurrent history of Enqueue, Dequeue and Close is explained by some sequential order of its operations, consistent with real time, of a FIFO queue: each URL comes out once, in order, batches stay together, and operations report end-of-queue after Close and the context's error after cancellation. Dequeue blocks only while the queue is empty and open, and after Close nothing is handed out.",
     ["schedules", "histories"], "all programs of 2-3 threads from a table of 12-19 operation sequences, all statement-level interleavings within the deviation bound",
     "Tests run fixed sequences from one goroutine.",
     ["queue.go"], [("condition variable and lock", "queue.go")],
     pkg="hant", observe=["results of queue operations"], technique="stateless model checking plus exhaustive linearizability checking of each history against a sequential queue",
     rule="every multiset of thread programs times every statement-level schedule within the bound; non-trivial: operations overlapped or blocked", note="Each history is checked by exhaustive search for a linearization.", assumptions=A_SCHED)

prop("C09", "Wait returns exactly when no queued or unacknowledged URL is left",
     "Wait on the in-memory queue returns if and only if every URL ever enqueued has been acknowledged or was discarded by Close; it neither returns early nor stays blocked, in any interleaving with Enqueue, Dequeue, Done and Close. No such interleaving panics, and the queue can be used again after Wait returned if it was not closed.",
     ["schedules", "histories"], "all programs of 2-3 threads from a table of 12-17 operation sequences including Wait, all statement-level interleavings within the deviation bound",
     "The interleaving that breaks it needs Done and Enqueue in the window where Wait returns.",
     ["queue.go"], [("unacknowledged URLs counted under the lock", "queue.go")],
     pkg="hant", observe=["returns of Wait"], technique="stateless model checking plus exhaustive linearizability checking of each history against a sequential queue",
     rule="every multiset of thread programs containing a Wait times every statement-level schedule within the bound; non-trivial: operations overlapped or blocked", note="Blocked operations must be blocked in the final state of the sequential queue.", assumptions=A_SCHED)

prop("C10", "Of all concurrent callers asking about a URL, exactly one gets it",
     "For both de-duplicators, however many goroutines pass overlapping batches, no URL is ever returned twice, and every URL is returned once unless the bloom filter reports it falsely as seen. The result of a call is the unseen part of its batch in the batch's order, duplicates inside a batch included.",
     ["schedules", "histories"], "2-3 goroutines with 1-2 batches each over 3 URLs, all statement-level interleavings within the bound; all sequential histories of 3-4 batches",
     "Tests are sequential; the check-then-add window of the bloom filter needs two goroutines.",
     ["dedupe.go"], [("atomic load-or-store", "dedupe.go"), ("test and add of the bloom filter under one lock", "dedupe.go")],
     pkg="hant", observe=["results of Dedupe"], technique=BOTH, rule="every assignment of batches times every statement-level schedule within the bound; all are non-trivial", note="The filter used in the exactly-once clause has no false positives for the URLs used.", assumptions=A_SCHED)

# ---------------------------------------------------------------- urls

prop("C11", "URL normalization is canonical, idempotent and keeps the page",
     "The URL the engine crawls denotes the same page as the URL it was given: spellings that differ in case of scheme or host, default port, percent-encoding of unreserved characters, dot segments, surplus slashes, order of query parameters or fragment have one normal form, and different pages have different ones. URLs a scraper makes by hand are treated as their spelling is, and are left as they were. Normalizing a normal form changes nothing, and it is an absolute URL with an absolute path and no fragment.",
     ["inputs"], "all URLs built from 4 schemes, 11 hosts, up to 3 (quick) / 4 (thorough) path segments out of 19, 7 queries and 4 fragments",
     "Eleven examples are tested; escapes combined with dot segments and empty segments are not.",
     ["internal/normalize/url.go", "engine.go"], [("component-wise normalization", "internal/normalize/url.go")],
     pkg="hant", observe=["URLs passed to Queue, Deduper and Client"], technique=ENUM, rule="every URL of the grammar; all are non-trivial", note="The oracle reads URLs with its own parser, written for this purpose.",
     assumptions=["Percent-encoding of reserved characters other than '/', '%', '?' and ':' is not part of the enumeration."])

prop("C12", "Matchers and limiters decide by host and path as documented",
     "Hostname, pattern and regexp matchers and the limiters of the same names decide exactly by the URL's host and path, never by scheme, query or fragment: hostname by equality, patterns with * for any text and ? for one character over the whole text, regexps by a match. A matcher and a limiter with the same argument select the same URLs, inside the engine for all spellings of a URL, and they leave the URL unchanged. An invalid regexp is refused when it is given.",
     ["inputs"], "all combinations of 28 patterns, 2 schemes, 4 hosts, 9 paths, 3 queries, 2 fragments, with and without leading slash; 28 patterns x 32 link spellings through the engine",
     "A few examples per matcher are tested, limiters' selection not at all.",
     ["matchers.go", "limiters.go"], [("match on host plus path", "matchers.go"), ("same for limiters", "limiters.go")],
     pkg="hant", observe=["verdicts", "delays under fake time"], technique=ENUM, rule="every combination; all are non-trivial", note="Patterns are judged by a reference glob matcher, limiters by whether they delay under fake time.")

prop("C13", "Limiters never exceed their rate and never delay more than it requires",
     "In any interleaving of callers, a limiter of n per second lets through at most n + n*t matching requests in any interval of t seconds, and callers that keep it busy are let through as early as that rate allows; a waiting caller that is canceled does not delay the next one. URLs it does not apply to are never delayed. A canceled context makes a waiting caller return its error at once, without a request being let through.",
     ["schedules", "histories", "configurations"], "2-3 goroutines with 2-3 calls each and pauses, n in 1-3, all limiter kinds, cancellation at 3 times, one caller that gives up among n+2, all interleavings within the bound, under fake time; crawls of 3 sites",
     "No test of any limiter exists; rates are a property of concurrent histories over time.",
     ["limiters.go"], [("token bucket shared by all callers", "limiters.go")],
     pkg="hant", observe=["times at which Limit returns"], technique=BOTH, rule="every configuration and schedule within the bound; non-trivial: more requests than the burst", note="Time is simulated; golang.org/x/time/rate runs instrumented.", assumptions=A_SCHED)

prop("C14", "The fetcher retries exactly the temporary failures, with bounded backoff",
     "A request is repeated if and only if the previous attempt ended with status 429, 503 or 504 or a temporary network error, wrapped or not, at most the configured number of attempts in total, after a pause of min(attempt^2 * min backoff, max backoff). Any other outcome ends it at once: success is a page, 404 is neither page nor error, everything else is an error that carries the status or the network error. Cancellation ends a pause at once, and min backoff >= max backoff is an error. With the default client a server that does not answer, or stops in the middle of the body, is given up ten seconds after the attempt began.",
     ["fault_sequences", "configurations"], "all sequences over 26 attempt outcomes up to 3-6 attempts, 7 backoff settings, default and explicit limits, cancellation at 5 times",
     "Tests retry three fixed sequences with backoffs of nanoseconds and never a network error.",
     ["fetcher.go"], [("retry loop", "fetcher.go"), ("temporary error classification", "fetcher.go")],
     pkg="hant", observe=["requests with times", "result of Fetch"], level="fault_enumeration", technique="exhaustive enumeration of failure sequences on the real code under simulated time",
     rule="every sequence of outcomes the fetcher asks for; all are non-trivial", note="The outcome of an attempt is chosen when the attempt is made, so all reachable sequences are covered.")

prop("C15", "Requests and pages carry what the caller asked for and the server sent",
     "Every page request is a GET of exactly the given URL with the caller's context, an Accept of text/html and the configured or default user agent. The page has the final URL and header of the response and its whole body, however it is delivered, and parsing it drains and closes the body while the parsed document stays usable. Responses that do not become a page are drained and closed, and their error names the final URL and the status.",
     ["inputs", "configurations"], "all combinations of 3 URLs, redirects, 4 statuses, 3 bodies, 4 delivery patterns, 3 agents, custom and default client, 4 uses; 10 error statuses",
     "Tests fetch one page from a local server.",
     ["fetcher.go", "page.go"], [("request construction", "fetcher.go"), ("page construction", "fetcher.go"), ("parse once", "page.go")],
     pkg="hant", observe=["requests seen by Client", "Page methods"], technique=ENUM, rule="every combination; all are non-trivial", note="Bodies deliver 1, 7, 512 or all bytes per read, with and without data at EOF.")

prop("C16", "robots.txt verdicts are right, current and fetched as documented",
     "A URL's path and query are judged by the longest matching rule of the most specific group for the crawler's agent in its host's own robots.txt, whichever characters of either are percent-encoded, and every URL is allowed when that request ends with a 4xx or 5xx status; if it cannot be obtained or parsed Run reports it. A robots.txt is requested by the crawler's own user agent from /robots.txt of the host, used for up to an hour without being requested again, and never longer than that.",
     ["inputs", "histories", "schedules"], "all texts of up to 2 groups of 8 agent lists and up to 2 rules out of 11, with 11 paths each; 46 spellings of rules times 46 of URLs; crawls lasting minutes to hours with texts that change; 2 hosts with 7 outcomes each",
     "Tests judge two paths of one file.",
     ["internal/robots/cache.go", "engine.go"], [("lookup and age-bound cache", "internal/robots/cache.go")],
     pkg="hant", observe=["requests seen by Client and the default client, with times"], technique=BOTH, rule="every text, path, duration and schedule within the bound; all are non-trivial", note="Verdicts are compared with an independent implementation of prefix rules.",
     assumptions=["Wildcard rules are not part of the enumeration."] + A_SCHED)

prop("C40", "A page that could not be read completely is never taken for a whole one",
     "When the body of a response ends with an error, after any number of bytes, every method of the page that returns an error returns one that wraps it, each time it is called: Document, HTML, Scan and Next, and so does the JSON scraper, which writes nothing; the methods that return no error yield nothing. The body is closed all the same. A crawl whose scraper uses any of the former returns that error from Run, it does not end as if the page had no links. When the body is complete the page is the same however it arrives, byte by byte, with empty reads or with the last bytes and the end at once.",
     ["inputs", "fault_sequences", "schedules"], "documents times every cut position times three errors times four piece sizes and two ways of ending, every sequence of two page operations; crawls with one broken page, all interleavings within the bound",
     "A connection cut in the middle of a document needs a faulty server; no test has one.",
     ["page.go", "json.go", "fetcher.go", "engine.go"], [("the parse error is kept and returned", "page.go"), ("scrapers pass it on", "json.go")], pkg="hant",
     observe=["results of the page methods", "output of the JSON scraper", "error of Run", "closing of the body"], technique=BOTH,
     rule="every document, cut, error, way of arriving and sequence of operations of the tables; every crawl configuration times every schedule within the bound; all are non-trivial", note="The body is a stand-in that fails at a chosen byte.", assumptions=A_SCHED)

# ---------------------------------------------------------------- antcache

prop("C17", "Requests the cache must not handle go through untouched",
     "A request that is not GET or HEAD, says no-store or has a Range, Content-Range or Authorization header is sent to the origin exactly once as it is, its response is returned as it is, and nothing is read from or written to the storage. For every other request the caller gets a response with the status, header, body and final URL an origin response for the same method and URL had, apart from an X-From-Cache header that the cache adds exactly when the response comes from it.",
     ["inputs", "histories"], "all requests from a table of methods and header combinations, after histories that filled the cache",
     "Tests use one request per case.",
     ["antcache/httpcache.go", "antcache/rfc7234.go"], [("cacheability test before lookup", "antcache/httpcache.go")],
     pkg="hcache", observe=["origin requests", "storage operations", "responses"], technique=ENUM,
     rule="every request of the table after every history, for both policies; non-trivial: the cache held an entry for the URL or was bypassed", note="A recording origin and storage are compared with what the request and history demand.",
     assumptions=["net/http's own transport is replaced by an origin that answers as net/http would (framing, closed bodies)."])

prop("C18", "Only responses the policy allows are stored, keyed by method and URL",
     "A response is stored only if the request was a cacheable GET or HEAD that did not say no-store in any Cache-Control line, the status is a cacheable one, and it has a valid Date with a positive explicit lifetime and no no-store in any line of its own (standard policy) or just a valid Date (aggressive policy, whatever the response says). Every such response is stored once its body was read to the end and closed, under a key that distinguishes method and full URL, and can then be served.",
     ["inputs", "histories"], "all combinations of methods, statuses 1xx-5xx, Cache-Control, Expires and Date values for both policies",
     "Tests cover single header values.",
     ["antcache/rfc7234.go", "antcache/aggressive.go", "antcache/directives.go", "antcache/httpcache.go"], [("storability", "antcache/rfc7234.go")],
     pkg="hcache", observe=["storage operations"], technique=ENUM,
     rule="every combination of the tables; all are non-trivial", note="The policy oracle is written from RFC 7234 and the documentation and shares no code with the cache.",
     assumptions=["Directive values in quotes are not part of the enumeration."])

prop("C19", "A stored response is served without validation only while it is fresh",
     "Under the standard policy the cache answers from storage without contacting the origin exactly when the time since the response's Date is below its lifetime, both adjusted by the request's max-age, min-fresh and max-stale as RFC 7234 says, and neither side demands no-cache; must-revalidate forbids stale use. Otherwise the origin is asked. only-if-cached serves what is stored, and a response is used only for requests that agree in the header fields its Vary names.",
     ["inputs", "histories"], "all combinations of request directives, response directives, Date, Expires, Vary and elapsed times around each boundary, under simulated time",
     "Tests check single directives at one age.",
     ["antcache/rfc7234.go", "antcache/directives.go", "antcache/utils.go"], [("freshness", "antcache/rfc7234.go")],
     pkg="hcache", observe=["origin requests", "responses"], technique=ENUM,
     rule="every combination of the tables under simulated time; all are non-trivial", note="The freshness oracle is written from RFC 7234; the second exactly on a boundary is not judged.",
     assumptions=["The Age header, which the cache documents no use of, is not enumerated.", "A request max-age together with max-stale is not judged: the RFC leaves it open."])

prop("C20", "The aggressive policy serves responses up to its age, unless bypassed",
     "With the aggressive policy a stored response is served without contacting the origin exactly while its Date is less than the configured age (24 hours by default) in the past, whatever the response's own caching headers say. A request that says no-cache, or that the cache must not handle, goes to the origin.",
     ["inputs", "histories"], "all combinations of ages, elapsed times, response directives and request directives, under simulated time",
     "Tests check one age.",
     ["antcache/aggressive.go"], [("freshness by Date", "antcache/aggressive.go")],
     pkg="hcache", observe=["origin requests", "responses"], technique=ENUM,
     rule="every combination of the tables under simulated time; all are non-trivial", note="Boundaries are probed one second before and after.")

prop("C21", "Validation reuses, replaces or forwards responses as documented",
     "A stale response is validated with one request that carries its ETag and Last-Modified unless the caller set conditions of its own, whose 304 is then forwarded. After 304 the caller gets the stored body with the merged header and the stored entry is refreshed; after a full response the caller gets exactly that response, which replaces the entry if it may be stored; after a 5xx the caller gets it or, with stale-if-error, the stored response; a network error is returned. In every case the bodies the caller does not get are closed.",
     ["inputs", "histories", "fault_sequences"], "all histories of up to 3-4 requests with stale entries, validators and 304/200/5xx/error outcomes, bodies read fully, partly or not",
     "Tests run one validation each and never look at the next request.",
     ["antcache/httpcache.go"], [("validation", "antcache/httpcache.go")],
     pkg="hcache", observe=["origin requests", "responses", "stored entries", "closes of bodies"], technique=ENUM,
     rule="every history of requests and origin outcomes within the bound; non-trivial: a validation took place", note="A reference cache with one entry per key predicts every origin request, response and stored entry.")

prop("C22", "A response enters the cache only complete, once, when it is closed",
     "A response is written to the storage only when its body was read to the end without error and then closed, exactly once however often it is closed, so a body that was abandoned, read partly or failed midway is never served later. What is stored yields the same status, header and body bytes when it is served. Errors of the storage are returned: load errors by Do without contacting the origin, store errors by Close.",
     ["fault_sequences", "inputs", "histories"], "all reading patterns (none, partial, complete, error at each position, close zero to two times), body framings, and storage faults",
     "Tests read complete bodies.",
     ["antcache/cachereader.go", "antcache/httpcache.go"], [("tee of the body", "antcache/cachereader.go")],
     pkg="hcache", observe=["storage operations", "later responses"], technique="exhaustive enumeration of reading patterns, body framings and storage faults on the real code", level="fault_enumeration",
     rule="every reading pattern, framing and fault; all are non-trivial", note="Bodies deliver bytes with and without EOF and fail at each position.")

prop("C23", "Concurrent requests never get each other's responses",
     "When many goroutines use one cache at the same time, every response a caller gets is, as a whole, one the origin produced for the same method and URL: headers and body belong together and nothing of another key or of a different version is mixed in. This holds while entries expire, are validated and are overwritten, and no interleaving panics or blocks for ever.",
     ["schedules", "histories"], "2-3 goroutines with 1-2 requests each over 2 URLs, versions that change with each origin request, all interleavings within the bound, memory and disk storage",
     "No test uses the cache from two goroutines.",
     ["antcache/httpcache.go", "antcache/cachereader.go", "antcache/memstore.go"], [("per-request readers, storage values never shared", "antcache/httpcache.go")],
     pkg="hcache", observe=["responses"], technique=BOTH,
     rule="every program of the table times every schedule within the bound; all are non-trivial", note="Each origin response carries its URL and version in header and body, so mixtures are visible.", assumptions=A_SCHED)

prop("C24", "After a crash the disk store has, per key, an old or the new value, complete",
     "If the process or the machine stops at any point, a store opened on the directory afterwards returns for each key nothing, the value of a Store that was in progress, or the last value whose Store returned, complete and unmodified; a value whose Store returned before the crash is not lost in favour of nothing or an older one. Leftovers of interrupted writes are never served and do not prevent opening.",
     ["crash_points", "histories"], "all crash points of all histories of up to 3-4 stores and sweeps over 2 keys, all subsets of unsynced file data (torn, truncated, missing) and unsynced directory operations",
     "No test crashes; torn writes need control of the file system.",
     ["antcache/disk.go"], [("temporary file, fsync, rename, directory fsync", "antcache/disk.go")],
     pkg="hcache", observe=["Load after reopening"], level="fault_enumeration", technique="exhaustive crash point enumeration on the real code over a model file system that is replayed against the real one",
     rule="every crash point of every history times every subset of unsynced effects; non-trivial: something unsynced existed or a Store was in progress", note="The model file system's visible behaviour is compared with the operating system's on every operation sequence up to the bound (conformance/*).",
     assumptions=["What fsync of a file or directory returned for survives the crash; unsynced data may be kept, lost or torn, unsynced directory operations are lost from the last one on.", "Files are not removed from outside while the store is open."])

prop("C25", "The disk store is linearizable per key under concurrency",
     "Concurrent Load, Store and sweeping of a disk store behave, per key, as if the operations happened one after the other in an order consistent with real time: Load returns the value of the latest Store or nothing if that entry was swept, never part of a value, another key's value or an error because of a concurrent removal. A value stored while the directory is being scanned or swept is not removed in place of an older one.",
     ["schedules", "histories"], "2-3 goroutines of loads and stores over 1-2 keys plus sweeper and warm-up, all interleavings within the bound",
     "The existing tests are sequential.",
     ["antcache/disk.go"], [("index lock", "antcache/disk.go")],
     pkg="hcache", observe=["Load and Store results"], technique=BOTH,
     rule="every program of the table times every schedule within the bound, time passing included; non-trivial: operations overlapped", note="Each per-key history is checked by exhaustive search for a linearization.", assumptions=A_SCHED)

prop("C26", "A sweep removes exactly the expired and the surplus oldest entries",
     "After a sweep, entries older than the maximum age are gone, the total size of the remaining ones is at most the maximum size, and no entry was removed that is neither expired nor needed to be: the survivors are the newest ones. Limits that are zero or negative are not applied, removed entries are gone from disk and cannot be loaded, and everything else stays loadable.",
     ["inputs", "histories"], "all sets of up to 4 entries over sizes and ages, all limits of a table, through the background sweeper under simulated time",
     "Tests sweep one expired file.",
     ["antcache/disk.go"], [("sweep", "antcache/disk.go")],
     pkg="hcache", observe=["Load", "directory contents"], technique=ENUM,
     rule="every set of entries, limits and history; non-trivial: the sweep removed something but not everything", note="A reference sweep predicts the survivors.")

prop("C27", "Disk faults are reported and never corrupt what is served",
     "Whatever file operation fails, Store and Load return an error or succeed completely: a failed Store leaves the previous value of its key (or the new one) loadable, temporary files do not accumulate and no other key is affected. With compression, what is loaded is byte for byte what was stored, and files that are truncated or not compressed yield an error.",
     ["fault_sequences", "inputs"], "every single fault and pair of faults at every file operation of histories of stores and loads, with and without compression",
     "No test injects an I/O error.",
     ["antcache/disk.go"], [("cleanup on errors", "antcache/disk.go"), ("compression", "antcache/disk.go")],
     pkg="hcache", observe=["results of Load and Store", "directory contents"], level="fault_enumeration", technique="exhaustive fault enumeration on the real code over a model file system that is replayed against the real one",
     rule="every placement of up to the stated number of faults at file operations; non-trivial: a fault was delivered", note="A fault is an error before the effect, after it, or a short write.")

prop("C28", "Opening, warming up and closing a disk store always work out",
     "Opening an absolute existing directory succeeds and anything else is refused; Wait returns once all entries that were in the directory can be loaded, or with its context's error; unrelated or temporary files are ignored. Close returns, stops all background work and leaves the entries in place, at any moment and in any combination of options; no interleaving or directory error makes open, warm-up, sweep or close hang or panic.",
     ["schedules", "configurations", "fault_sequences"], "all interleavings within the bound of open, wait, load, store, close with the warm-up and sweeper goroutines, directory contents and options from a table, directory read errors",
     "Tests open, use and close in sequence.",
     ["antcache/disk.go"], [("warm-up goroutine", "antcache/disk.go"), ("sweeper goroutine and stop channel", "antcache/disk.go")],
     pkg="hcache", observe=["results of Open, Wait, Close", "goroutines left"], technique=BOTH,
     rule="every program, directory and option set of the tables times every schedule and placement of read errors within the bound; all are non-trivial", note="Hangs are detected exactly.", assumptions=A_SCHED + ["Closing a store twice is not judged."])

prop("C41", "A crawl repeated through the cache sees the same and asks only what it must",
     "When an engine crawls through a cache, every page that a crawl received is in the cache once Run has returned, also when the scraper did not read it, when it does not exist or when the crawl was canceled or failed. A later crawl with the same storage, in the same process, after a restart or after a crash of the process or the machine, is complete and scrapes every page exactly once, with the same URL, content, links and output as without a cache; it requests no page that is stored and fresh, validates a stale one once, and requests everything else exactly once.",
     ["schedules", "fault_sequences", "crash_points", "configurations"], "two crawls of sites of 4 and 8 pages with links, redirects and missing pages, 5 cache policies and ages, 3 scrapers, workers 1-2, the first one complete, canceled at any point, failing or crashed before every disk operation with every image of the directory, all interleavings within the bound",
     "The parts are tested one by one; what a crawl leaves in the cache depends on who drains and closes which body, in which order, and when it is interrupted.",
     ["engine.go", "fetcher.go", "page.go", "antcache/httpcache.go", "antcache/cachereader.go", "antcache/disk.go"], [("pages are drained and closed", "engine.go"), ("responses are stored when closed", "antcache/cachereader.go"), ("crash-safe replacement", "antcache/disk.go")],
     pkg="hcache", observe=["requests seen by the origin", "pages scraped with their content", "output of the JSON scraper", "result of Run"], technique=BOTH,
     rule="every configuration times every schedule within the bound, and every crash point times every image; all are non-trivial", note="The origin, the storage and the file system are simulated; engine, fetcher, cache and disk store are the real code.", assumptions=A_SCHED)

# ---------------------------------------------------------------- pages

prop("C29", "Links are resolved against the page's final URL as RFC 3986 says",
     "The URLs a page yields are the href values of its matching elements in document order, without the white space around them, resolved against the page's final URL as RFC 3986 says, keeping only http and https URLs with a host and skipping what cannot be parsed. Duplicates stay, elements without href contribute nothing, and the page's own URL is not modified.",
     ["inputs"], "all combinations of base URLs and references from a grammar, 1-3 links per page, several selectors",
     "Tests resolve two links.",
     ["page.go"], [("resolve", "page.go")], pkg="hscan", observe=["Page.URLs", "Page.Next"], technique=ENUM,
     rule="every base and reference of the grammar, every list of elements; non-trivial: at least one reference", note="The oracle is the resolution algorithm of RFC 3986, section 5, on text.",
     assumptions=["URLs that differ in surplus slashes or in dot segments of absolute references are the same.", "References of non-ASCII characters or with surrounding whitespace are not part of the enumeration."])

prop("C30", "Scan fills every supported type as its tags say",
     "Scanning fills each exported tagged field from the first element matching its selector (all of them, for slices), in the element being scanned, taking the text or the named attribute, parsed as the field's type (the nearest value when out of range) with zero for what does not parse or match; nested structs are scanned inside the element their selector matches. Values scanned earlier are not changed by a later scan. Fields without tag are untouched; unsupported or recursive types, slices without selector, bad selectors and anything but a non-nil pointer are errors, and no document makes it panic.",
     ["inputs"], "all struct shapes of a table (scalars, attributes, slices, nested structs, slices of structs) times all documents of a grammar with up to 4 elements",
     "Tests scan one document per kind.",
     ["internal/scan/scan.go", "internal/scan/struct.go", "internal/scan/slice.go", "internal/scan/scanner.go"], [("reflective scanners", "internal/scan/scan.go")], pkg="hscan", observe=["scanned values"], technique=ENUM,
     rule="every type of the table times every document of the grammar, into zero and into used values; non-trivial: the document has elements", note="A reference scanner with its own document tree and selector matcher.")

prop("C31", "List operations agree with the document",
     "Query returns, for every element of the list in order, the elements matching the selector among it and its descendants; Is tells whether any element matches, At indexes from the front or the back and is empty out of range, Text concatenates text in document order, Attr and Scan use the first element. Operations on empty lists or with invalid selectors return empty results, and none of them changes the list or the document.",
     ["inputs"], "all documents of a grammar with up to 4-5 elements, all selectors of a table, all indexes from -4 to 4, all sublists",
     "Tests use one document.",
     ["list.go", "internal/scan/nodes.go", "internal/selectors/selectors.go"], [("List methods", "list.go")], pkg="hscan", observe=["results of List methods"], technique=ENUM,
     rule="every document of the grammar, list of up to 2-3 of its elements, operation and argument; non-trivial: the document has elements", note="A reference document tree with its own selector matcher.")

prop("C32", "Pages, scans and selectors can be used from many goroutines",
     "However many goroutines query, scan and render pages at the same time, the same page included, each gets the result it would get alone: a page is parsed once, and compiled selectors and scanners are shared without affecting each other. No interleaving panics or blocks for ever.",
     ["schedules"], "2-3 goroutines with operations from a table on shared and separate pages and types, cold and warm caches, all interleavings within the bound",
     "Tests are sequential.",
     ["page.go", "internal/scan/scanner.go", "internal/selectors/selectors.go"], [("parse once", "page.go"), ("scanner cache", "internal/scan/scanner.go"), ("selector cache", "internal/selectors/selectors.go")], pkg="hscan", observe=["results"], technique=BOTH,
     rule="every program of the table times every schedule within the bound; all are non-trivial", note="Cold caches are obtained with selectors and struct types that are new in every execution.", assumptions=A_SCHED)

prop("C33", "The JSON scraper writes one whole line per page and returns its links",
     "For every page scraped, by however many goroutines, the JSON scraper writes exactly one line holding the JSON encoding of what scanning that page yields; lines never interleave and every page's line appears. It returns the links its selectors select, in order, or all links without selectors; scan or write errors are returned, and so is an error for any type that is not a struct.",
     ["schedules", "fault_sequences", "inputs"], "2-3 goroutines scraping different pages with a writer that splits and fails writes, all interleavings within the bound",
     "Tests scrape one page at a time.",
     ["json.go"], [("encoder lock", "json.go")], pkg="hscan", observe=["writer", "returned URLs"], technique=BOTH,
     rule="every program, document and type of the tables times every schedule within the bound; all are non-trivial", note="The writer takes every line in two steps.", assumptions=A_SCHED)

# ---------------------------------------------------------------- antcdp

prop("C34", "A browser target serves one request at a time and is reused",
     "No two requests ever use the same browser target at the same time, and a released target is reused before a new one is created while at most ten idle targets are kept. Every connection opened for a request is closed when the request ends, successfully, with an error or by cancellation.",
     ["schedules", "fault_sequences"], "2-3 concurrent requests, cancellation and failures at every step, all interleavings within the bound, against a simulated browser",
     "The tests need a browser and are skipped or sequential.",
     ["antcdp/targets.go", "antcdp/transport.go", "antcdp/tx.go"], [("target pool", "antcdp/targets.go"), ("close of the transaction", "antcdp/tx.go")], pkg="hcdp", observe=["targets created and connections opened and closed"], technique=BOTH)

prop("C35", "A browser response is the document's, in any order of events",
     "For every order in which the browser reports requests, responses and readiness of the page, of its subresources and frames, Do returns the status, headers and protocol of the requested document's final response with the rendered HTML as body, its length as content length and the cookies as Set-Cookie; the URL of the response's request is the one the document was finally received from. It returns whatever subresources never complete, and nothing of a page that was loaded or abandoned before on the same target gets into the response. A failed call or navigation, a closed connection and cancellation are errors.",
     ["schedules", "histories", "fault_sequences"], "all orders of the browser's messages about the document, redirects, subresources and frames, and about the previous page of the target; failures at each call and message",
     "Event order is up to the browser; tests see one order.",
     ["antcdp/tx.go"], [("event loop", "antcdp/tx.go")], pkg="hcdp", observe=["response of Do"], technique=BOTH)

prop("C36", "A request is translated faithfully for the browser",
     "The browser is told to navigate to exactly the request's URL after the request's headers were set as extra headers, each with its first value, and its cookies, with name and value and for that URL, were stored; events are enabled before the navigation. The response refers to the request it answers.",
     ["inputs"], "all combinations of URLs, header sets and cookies of a table",
     "Tests send one header and one cookie.",
     ["antcdp/tx.go"], [("request setup", "antcdp/tx.go")], pkg="hcdp", observe=["protocol messages"], technique=ENUM)

prop("C42", "A crawl through the browser reads every page as it is rendered, once",
     "A crawl whose fetcher uses the browser client scrapes every reachable page exactly once, with its final URL after redirects, its own headers and its rendered document, however the requests of several workers interleave with the messages of the browser; missing pages are skipped, pages the server is too busy for are asked again. There are never more targets than requests at a time. When Run has returned - complete, canceled, past its deadline or after any failure of the scraper, the navigation, the connection or the browser, which it reports - no connection is open and no request is under way, and a later crawl with the same client is complete.",
     ["schedules", "fault_sequences", "configurations"], "crawls of sites of 4 and 8 pages with redirects, subresources, missing and busy pages, 2 scrapers, workers 1-2 and several limits; canceled at every call, failing in 7 ways; all interleavings within the bound",
     "The engine is never tested with the browser client; each is tested alone, or not at all without a browser.",
     ["engine.go", "fetcher.go", "antcdp/transport.go", "antcdp/targets.go", "antcdp/tx.go"], [("fetch with the client", "fetcher.go"), ("target pool", "antcdp/targets.go"), ("close of the transaction", "antcdp/tx.go")], pkg="hcdp", observe=["calls, connections and targets seen by the browser", "scraped pages and output", "result of Run"], technique=BOTH,
     rule="every configuration, end and point times every schedule within the bound; all are non-trivial", note="The browser is simulated; engine, fetcher and client are the real code.", assumptions=A_SCHED)

prop("C43", "What a configuration leaves out is replaced as documented",
     "An engine needs a scraper and nothing else: NewEngine is an error exactly without one. Whatever combination of the other parts is left out, the crawl is complete: without de-duplicator every page is still fetched once, without fetcher, or with one without client, pages come from the default client as the default agent, without matcher nothing is discarded, without limiter nothing is limited, one worker is the default, and without a concurrency limit the pages known at a time are all processed at that time. Parts that are given are used, and robots.txt, asked from the default client, is respected unless Impolite.",
     ["configurations", "schedules"], "all combinations of 4 worker counts, 4 concurrency limits, 3 de-duplicators, 4 fetchers, and queue, limiter, matcher and politeness given or not, over a site with missing, rejected and disallowed pages; interleavings within the bound",
     "Tests set most parts, and never compare the durations of crawls.",
     ["engine.go", "fetcher.go", "ant.go"], [("NewEngine", "engine.go"), ("defaults of the fetcher", "fetcher.go")], pkg="hant", observe=["requests with their client and agent", "calls of limiter and matcher", "virtual duration of the crawl"], technique=BOTH,
     rule="every configuration times every schedule within the bound; all are non-trivial", note="Virtual time: every page takes one second.", assumptions=A_SCHED)

prop("C44", "The test helper returns the page or ends the test",
     "anttest.Fetch returns, for every URL and every sequence of answers of the server, the page of the URL when it can be fetched successfully, after retries like any other fetch, and ends the test with one fatal message otherwise, missing pages and malformed URLs included; it never returns nil. Responses that do not become pages are drained and closed.",
     ["inputs", "fault_sequences"], "all sequences of up to 5 answers of 12 kinds, 5 URLs",
     "The package has no tests.",
     ["anttest/anttest.go", "fetcher.go"], [("Fetch", "anttest/anttest.go"), ("package level Fetch", "fetcher.go")], pkg="hant", observe=["returned page", "messages to the test"], technique=ENUM,
     rule="every URL times every sequence of answers; all are non-trivial", note="The test is a stand-in that records what it is told and ends as a real one.")

prop("C46", "The queue test suite passes right queues and fails wrong ones",
     "anttest.TestQueue passes, in every schedule, for a queue that keeps the contract it tests: FIFO order, every URL to exactly one reader unaltered, io.EOF from a closed queue, the context's error when it is canceled, no errors otherwise. It fails, in every schedule, for a queue that loses, duplicates, reorders or alters URLs, fails without reason, or answers differently when closed or canceled.",
     ["schedules"], "all schedules within the bound, of the suite run on right queues and queues with one of 26 faults",
     "The tests run the suite once, with the right queue; whether it finds anything, and whether it always passes, they do not say.",
     ["anttest/queue.go"], [("TestQueue", "anttest/queue.go")], pkg="hant", observe=["verdict of the suite"], technique=BOTH,
     rule="every queue and schedule within the bound; all are non-trivial", note="The suite runs on testing.RunTests, as under go test; queues that block for ever are not part of the bound.", assumptions=A_SCHED)

# ---------------------------------------------------------------- races

prop("C37", "No data race in any documented concurrent use",
     "In every documented concurrent use - a crawl with several workers, a queue, de-duplicator, matcher, limiter or fetcher shared by goroutines, a page used from several goroutines, a JSON scraper, a cache and a disk store - no two goroutines access the same memory without synchronization, one of them writing. This includes URLs and batches that scrapers and callers keep or share.",
     ["schedules"], "all schedules within the bound of representative programs for each component, the happens-before race detector deciding each of them",
     "The test suite is run without the race detector and mostly sequentially.",
     ["engine.go", "queue.go", "dedupe.go", "page.go", "antcache/disk.go"], [("locks and atomics", "queue.go"), ("sync.Map", "dedupe.go")], pkg="hrace", race=True, observe=["reports of the race detector"], technique="stateless model checking with a happens-before race detector deciding every explored schedule")

prop("C39", "Errors that say they are temporary are retried, others are not",
     "An error of the scraper or the deduper whose Temporary method returns true does not end the crawl: the engine retries, and a crawl in which it happened once still completes. An error that does not say so is not retried: the page is scraped once and Run returns the error.",
     ["schedules", "fault_sequences"], "all interleavings (bounded deviations) of crawls in which the first, second or third call of the scraper or deduper fails with one of 4 kinds of error",
     "Tests never return such an error from a scraper or deduper.",
     ["ant.go", "dedupe.go", "Readme.md", "engine.go"], [("documented by Scraper and Deduper", "ant.go")], pkg="hant", observe=["calls of the scraper and deduper", "error of Run"], technique=BOTH,
     rule="every configuration, error and schedule within the bound; non-trivial: the error was returned",
     note="The engine does not implement the retries its documentation promises: this is listed in known_findings.json; the other half is checked without exception.", assumptions=A_SCHED)

prop("C45", "Caches and disk stores do what they were told, and assume the documented",
     "antcache.New is an error exactly when there is no client, a storage is nil or an option fails, and then returns no cache. Of options that say different things the last one counts, whatever their order otherwise; without a storage responses are kept in memory, by each cache for itself; without Aggressive only responses that say so are fresh, and with an age that is not positive it is 24 hours. A disk store that is not told otherwise sweeps every five minutes, keeps entries for 24 hours and up to a gigabyte, does not compress and says nothing. Debug messages start as documented and are well formed.",
     ["configurations", "histories"], "all sequences of up to 3-4 options of a cache, and of a disk store with 4 sets of entries of all ages and sizes over an hour of sweeps",
     "Tests use a single option at a time; defaults of minutes, days and gigabytes are out of their reach.",
     ["antcache/httpcache.go", "antcache/aggressive.go", "antcache/disk.go", "antcache/memstore.go"], [("New", "antcache/httpcache.go"), ("Open", "antcache/disk.go")], pkg="hcache", observe=["results of New", "responses and requests of the origin", "files", "debug messages"], technique=ENUM,
     rule="every sequence of options times every gap or set of entries; all are non-trivial", note="Time and the file system are simulated; files are as large as their entries say.")
