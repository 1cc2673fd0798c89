PEND = "check not built yet"
S = "src/"
TESTS = "The unit tests replace the file system, HTTP client and services by mocks and assert single calls"

prop("C01", "Cache files are published completely or not at all",
 "A file below the cache directory that another step or a later run may read is only ever created or replaced by renaming a completely written and closed temporary file onto its final name. When writing fails at any point, or the program dies, the previous file (or its absence) is still what readers see, no error is reported as success, and the temporary file is removed on every ordinary exit. Files written by external tools on behalf of the program are not covered.",
 ["crash_points", "fault_sequences", "inputs"], "every point at which the process may die and every file-system call that may fail while an article, template, image, formula, page or statistics file is stored",
 TESTS + "; none of them stops between two file-system calls or fails one call after another on a real directory.",
 [S+"cache/cache.go", S+"image/svg.go", S+"util/files.go"], [("CacheToFile", S+"cache/cache.go"), ("MakeSvgSizeAbsolute", S+"image/svg.go")],
 "path-sensitive typestate of temp file handles and paths (create, write, close, rename, remove) over SSA",
 "All paths of every function that creates or replaces a file are analysed, with loops abstracted by the recency abstraction; trusts os.Rename to be atomic and the models of os and io. Conversion results written by external programs are out of scope.")

prop("C02", "Valid cached data is used; missing or expired data is fetched and stored",
 "For every request whose answer is cached, a cached file that exists and is not older than the configured maximum age is used without contacting a server, and one that is missing or expired is never served but requested again. A successfully fetched answer is stored under the name that is looked up, and exactly that answer is returned. A failing lookup is reported, neither treated as a hit nor as a miss. The age counts from when the entry was stored; only with the eviction strategy lru does a use renew it.",
 ["histories", "inputs", "configurations", "fault_sequences"], "every article, template, image and formula request, every age of the cached file, every setting of the maximum age, every sequence of earlier runs that filled the cache",
 TESTS + " with one cache state each; they do not cover lookup, expiry, fetch and store of every kind of request together.",
 [S+"cache/cache.go", S+"http/http.go", S+"wikipedia/wikipedia.go"], [("GetFile, isOutdated", S+"cache/cache.go"), ("DownloadAndCache, PostFormEncoded", S+"http/http.go"), ("DownloadArticle, EvaluateTemplate, RenderMath", S+"wikipedia/wikipedia.go")],
 "typestate of cache lookups, path-sensitive over value numbers (lookup fact dominates every request; stored path equals looked-up path)",
 "All paths of the cache and of every service function that reaches it. The expiry comparison is decided as a fact over the age and the configured maximum; the clock and the file system are trusted.")

prop("C03", "A cache entry is only reused for the request it was made for",
 "Two requests that may have different answers never share a cache entry: everything the request sent to the server depends on is also part of the name of the file in the cache, and different kinds of requests use different cache folders. Known exception: the configured server is not part of the name.",
 ["inputs", "configurations", "histories"], "every pair of requests made in any sequence of runs sharing one cache directory",
 "Tests look at one request at a time with a fresh cache; a collision needs two different requests against the same cache.",
 [S+"wikipedia/wikipedia.go", S+"http/http.go", S+"util/hash.go"], [("DownloadArticle, downloadImage, EvaluateTemplate, getMathResource", S+"wikipedia/wikipedia.go")],
 "dependence analysis of request terms versus cache key terms (every input of the request must occur in the key through functions that keep it apart)",
 "Terms of all requests and of the cache names are built for all paths; hashes and escapes are trusted to be collision free. Four known findings (server not in the key).")

prop("C04", "Names from the wiki cannot leave their cache folder or be confused",
 "Whatever titles, file names or template texts contain, the file that is stored for them lies directly in its folder below the cache directory, and two different names (spaces and underscores in titles count as the same, as in the wiki) get two different files. Every file-system operation that may create, overwrite or delete something refuses a name that was not made safe before.",
 ["inputs"], "every string that can occur as article title, image name or template text",
 "The tests sanitize a handful of names; the guarantee is about all strings and about every place that builds a path.",
 [S+"util/files.go", S+"cache/cache.go", S+"main.go"], [("SanitizeFilename, IsSanitized", S+"util/files.go"), ("GetFilePathInCache", S+"cache/cache.go")],
 "encoding analysis of the name-escaping function (one-to-one, complete, folder names by constant propagation), provenance dataflow of path parts and cache names, dominance of the refusing guard over every changing call",
 "All path expressions below the cache directory, all names given to the cache (followed back to the parser and main, where the wiki markup and the user decide what is named), all changing operations of the file-system layer and all direct changes. The PNG derived from an image (\"x.svg.png\") is taken as not being the name of another image; empty names and names too long for the file system are out of scope.")

prop("C05", "A failed step is never reported as success",
 "Whenever an operation the book depends on fails (file system, network, external program, parsing of a response or configuration), the failure is returned to the caller with an error or ends the program with an error message. No function returns success, and the program never ends with a success message, after such a failure was observed or ignored. Failures while cleaning up temporary files and while only updating access times may be tolerated.",
 ["fault_sequences", "inputs"], "every fallible call in the program and every position at which it may fail",
 "Tests inject a few single failures through mocks; most error paths are never executed.",
 [S+"main.go", S+"cache/cache.go", S+"http/http.go", S+"wikipedia/wikipedia.go", S+"generator/html.go", S+"generator/stats.go", S+"generator/epub.go", S+"image/image.go", S+"util/files.go"],
 [("error returns of all repository functions", S+"main.go")],
 "path-sensitive error-obligation dataflow over SSA (every fallible call's error is an obligation that must reach an error return, a fatal exit or a success test)",
 "All paths of every function of the program with calls that can fail, loops abstracted by the recency abstraction. Diagnostic-only functions, clean-up calls, access-time updates and pure existence queries are tolerated; MakeSvgSizeAbsolute in downloadImage is tolerated as documented in the source.")

prop("C06", "Settings: project file over configuration file over default, command line on top",
 "Each setting has, at the time it is used, the value of the command line if it was given there, else the one from the project file if it is set there, else the one from the configuration file if it is set there, else the documented default (a value equal to the default counts as not given, as documented for merging). Taking over one setting never changes another one, and no source may override a source of higher priority.",
 ["configurations"], "every combination of values for all settings in defaults, configuration file, project file and command line, for every command of the program",
 "The tests merge a few hand-written configurations; they cannot try every field in every combination of sources.",
 [S+"config/config.go", S+"config/project.go", S+"main.go"], [("LoadConfig, MergeIntoCurrentConfig", S+"config/config.go"), ("flag handling", S+"main.go")],
 "abstract interpretation of the load, merge and flag code per setting: term of every configuration field at the end of each path, compared with the priority order",
 "Every path of the merge function, of loading and of the flag handling of every command, for each field of the configuration found in the type; defaults are compared with the documentation table. JSON decoding and cobra are modelled.")

prop("C07", "Every setting can be set in the file and on the command line, and has an effect",
 "Each documented setting has exactly one JSON name, and a command line flag of the same kebab-case name that sets this very setting and no other. Each setting is taken over when a project configuration is merged, and is read by the code that produces the book.",
 ["configurations"], "every setting of the configuration and every command",
 "No test compares the list of settings with the list of flags, JSON names and uses; a new or renamed setting is silently ignored.",
 [S+"config/config.go", S+"main.go"], [("Configuration struct", S+"config/config.go"), ("flags", S+"main.go")],
 "structural cross-check of type-checked program: configuration fields against JSON tags, flag registrations, merge assignments and reads reachable from the commands",
 "Every field of the configuration found in the type. A setting has an effect if a read of it outside of logging, validation and merging is reachable from a command.")

prop("C08", "Relative paths mean the same file no matter where and how they are given",
 "Paths in the configuration or project file that are relative are resolved against the directory of that file, absolute ones stay as they are, and an empty optional path stays empty. The value is resolved before it is merged, and tools that run in another working directory still get the same file.",
 ["configurations", "inputs"], "every path setting, relative, absolute or empty, from every source, from every working directory",
 "Tests run in one working directory and check few of the path settings.",
 [S+"config/config.go", S+"config/project.go", S+"main.go", S+"util/files.go"], [("makePathsAbsolute", S+"config/config.go")],
 "value-number dataflow of each path setting from file or flag to its use, path-sensitive (relative, absolute, empty)",
 "Every path-typed setting (those documented as file or directory) from every source; path/filepath functions are modelled. The order of resolving, merging and changing the directory is decided on all paths of each command.")

prop("C09", "Invalid settings are rejected before any work starts",
 "After all sources of settings are combined and before anything is downloaded or written, the effective settings are validated, and the program ends with an error if one is outside its documented range or not one of its documented values. Every setting with a documented range or set of values is covered, including the boundaries of the range. The files and directories named by settings are known to exist before a command downloads, converts or generates anything.",
 ["configurations"], "every effective configuration, whichever source a value came from, for every command",
 "Tests call the validation with a few invalid values; they do not show that it runs on the effective settings of every command.",
 [S+"config/config.go", S+"main.go"], [("AssertValidity", S+"config/config.go"), ("call order", S+"main.go")],
 "path-sensitive constraint extraction: facts known about every setting when validation succeeds, and validation dominating all work of every command",
 "Every setting with a documented range or set of values; boundaries compared exactly. A setting validated with a table keyed by a map is reported even if the table is right (not used here).")

prop("C10", "Every accepted option value is implemented by every feature depending on it",
 "For every value of an option that the validation accepts (output type, output driver, math converter, cache eviction strategy and their combinations) each place that depends on the option handles the value, and none falls through to an internal error or silently does nothing.",
 ["configurations"], "every combination of accepted option values",
 "Tests use a few of the combinations; an unhandled value only shows up at run time deep in the generation.",
 [S+"config/config.go", S+"main.go", S+"generator/epub.go", S+"generator/stats.go", S+"cache/cache.go", S+"wikipedia/wikipedia.go"], [("enum constants", S+"config/config.go")],
 "interprocedural conditional constant propagation over SSA for every accepted combination of the enumerated settings, with must-reach analysis of the output on the pruned flow graph",
 "All 45 accepted combinations (documented, see C09), every function reachable from a command. The method a value stands for is checked by a table of effects per value (program run, library writes, JSON encoding, selection by size or time).")

prop("C11", "No parsed content is lost when a page or its statistics are generated",
 "Everything the parser extracts from an article (each kind of element with all its nested content: text, sub lists, rows, cells, captions, link texts, references, formulas) is rendered into the page exactly once and in order, and is visited by the statistics. An element that cannot be handled leads to an error, not to silently missing text.",
 ["inputs", "programs"], "every article, every nesting of elements",
 "Tests render selected tokens in isolation; they do not cover each kind of element in each nesting, nor new kinds of elements.",
 [S+"generator/expand.go", S+"generator/html.go", S+"generator/stats.go", S+"parser/tokenizer.go"], [("expandToken and the handlers", S+"generator/expand.go")],
 "path-sensitive dataflow over SSA: every content of every element reaches the expansion and its result reaches the return value on all success paths",
 "Decides for all elements the parser can make, that the dispatcher has a case, every handler expands every tokenised field and nested element on every success path exactly once and in order, results and errors are kept; the parser is trusted to put the text into the elements")

prop("C13", "The same input gives the same output",
 "The content of every generated file is a function of the articles and the settings only: it does not depend on the iteration order of maps, on scheduling of the parallel workers, on the current time or on random numbers. This covers pages, statistics, books and the names of cache files.",
 ["schedules", "inputs"], "every run with the same input, every map iteration order and every schedule of the workers",
 "A test sees one iteration order and schedule per run and compares unordered or tiny data.",
 [S+"generator/stats.go", S+"parser/reference.go", S+"parser/template.go", S+"main.go"], [("map ranges, sorts, goroutines", S+"generator/stats.go")],
 "order-independence analysis of loops over maps and channels (SSA) plus forward data-flow from clocks, random sources, temporary names and shared counters to file contents and names",
 "Decides for all inputs and schedules that nothing the program itself writes depends on map order, scheduling, clock or random values; pandoc, image converters and the EPUB library are outside")

prop("C14", "The book contains every article of the project once, in the given order",
 "For every list of articles, and however the parallel workers are scheduled, the generated book or statistics is made from exactly one page per listed article in the listed order. This also holds when a page was taken from the cache, when an article is listed twice, or when fewer or more workers than articles exist; the output is only generated after all pages are finished.",
 ["schedules", "inputs", "histories"], "every article list, number of workers, schedule, and state of the cache from earlier runs",
 "The function that distributes the work is not covered by tests at all; order errors need particular schedules.",
 [S+"main.go"], [("generateBookFromArticles, processArticle", S+"main.go")],
 "list-provenance and loop-shape analysis (slot/index/item correspondence), producer/consumer and wait-group obligations, constant propagation per output type for the page result",
 "That the generators read the file behind each path correctly is the business of the external libraries.")

prop("C15", "Parallel workers do not race",
 "Memory that more than one of the parallel article or image workers can reach is only written under a lock, atomically, or before the workers start, and each worker writes results only to its own place. The creator waits for all workers before it uses their results.",
 ["schedules"], "every interleaving of the workers for every number of articles and images",
 "Tests do not run the workers concurrently, and the race detector only sees the executed schedules.",
 [S+"main.go", S+"wikipedia/wikipedia.go", S+"cache/cache.go"], [("go statements", S+"main.go")],
 "interprocedural shared-memory (escape) analysis of everything reachable from goroutines, must-held lock sets, own-slot recognition, creator wait typestate",
 "Memory reachable by goroutines is computed flow-insensitively over the whole program; goroutines of libraries and files on disk are out of scope.")

prop("C16", "Cache changes exclude each other and no lock is left behind",
 "Looking up, storing and evicting cache files exclude each other: no file is removed or replaced while another worker stores one. Every lock that is taken is released on every path, is never taken twice by the same worker and no worker waits for a channel or for other workers while holding it.",
 ["schedules", "fault_sequences"], "every interleaving of workers and every early return or error",
 "Deadlocks and lost unlocks need special schedules or failing calls, which no test arranges.",
 [S+"cache/cache.go"], [("cacheWriteMutex", S+"cache/cache.go")],
 "interprocedural lock-state dataflow (must- and may-held locks per program point, with wrapper summaries), and lock discipline for all file-system operations of the cache package",
 "All functions. Operations of the cache package are those of the file-system interface and package os; MakeSvgSizeAbsolute and external programs replace image files atomically without this lock and are outside this property.")

prop("C17", "Only successful server answers are data; requests are retried faithfully",
 "A response counts as data only if its status is 200 and the API did not mark it as an error; anything else is an error. After a 'too many requests' answer the same request (method, address, complete body and headers) is sent again, and every request carries the configured user agent. What is sent is exactly what the caller asked for.",
 ["inputs", "fault_sequences"], "every status code, every combination of response headers, every sequence of rate limited answers",
 "Tests use three or four fixed answers and a mock that ignores the request body.",
 [S+"http/http.go", S+"wikipedia/wikipedia.go"], [("doRequest, download, PostFormEncoded", S+"http/http.go")],
 "path-sensitive typestate of requests and responses over value numbers (status and API error facts at every hand-over; identity of method, address, body and headers on every retry)",
 "All paths from the two entry points of the http package and of every caller that reads a response. The HTTP library itself is trusted.")

prop("C18", "Opened files, responses and other resources are closed on every path",
 "Every file, HTTP response body or other closable resource the program opens is closed on every path to a return, successful or not, unless it is handed to the caller together with success; it is not used or handed on after it was closed, and is closed before the same step opens the next one. Files given to the profiler stay open until the program ends.",
 ["fault_sequences", "inputs"], "every path through every function that opens something, including all error exits",
 "Leaks do not fail a test; they exhaust descriptors and connections in books with thousands of images.",
 [S+"http/http.go", S+"cache/cache.go", S+"util/files.go", S+"main.go", S+"image/svg.go", S+"generator/stats.go"], [("opens and Close calls", S+"http/http.go")],
 "ownership typestate of closable values over all SSA paths (open, close, hand-over, store), modular per function",
 "All paths of every function with a call that gives a closable value; ownership passes with results of repository functions. Unclosed resources at program end are ignored.")

prop("C19", "Pages reference exactly the image files that are produced",
 "For every image type and every combination of conversion settings, the file a page refers to is the file that downloading and post-processing produces for this image, relative to where the page is resolved. The decision to convert and the name of the converted file are the same on both sides, and a converted file is made again when the original was downloaded again. An image missing at one of the configured sources is looked for at the next one, until the last source was asked, and no source is left out.",
 ["inputs", "configurations"], "every image name and every combination of conversion commands",
 "The side that writes the files and the side that writes the page are tested separately.",
 [S+"generator/html.go", S+"wikipedia/wikipedia.go", S+"util/files.go", S+"image/image.go"], [("filenameToImagePath", S+"generator/html.go"), ("postProcessImage", S+"wikipedia/wikipedia.go")],
 "static analysis of the SSA form: partial evaluation of the converting and the page-writing side for each kind of file and each combination of settings, comparison of the resulting path terms; must-pass analysis over the control flow graph",
 "Every kind of file known to either side (in upper, lower and mixed case) is combined with every subset of the conversion settings; names are followed from the parsed text to the cache and to the page. What the converters themselves write, and the internal driver (a known finding), are outside.")

prop("C20", "External programs get every value as its own argument",
 "When an external program is started (image conversion, formula rendering, pandoc), each path or value taken from the article or settings arrives as one complete argument at the position the command template gives it, whatever characters it contains, and no shell interprets it. It is started in the working directory it is given. A command that fails is reported as an error.",
 ["inputs", "configurations"], "every file name, directory, metadata value and command template",
 "Tests use names without spaces or special characters and mock the execution.",
 [S+"image/image.go", S+"util/cmd.go", S+"generator/epub.go"], [("command construction", S+"image/image.go"), ("Execute", S+"util/cmd.go")],
 "interprocedural shape analysis of SSA: argument lists and argument texts are decomposed into parts through all functions building them; path analysis of error returns",
 "All ways to build the program name and each argument of every exec call. What the started programs do with their arguments is outside; paths starting with a dash are not regarded.")

prop("C21", "Eviction only removes cache files, stops, and keeps the cache below its limit",
 "Storing a file with eviction enabled removes only regular files inside the cache directory and never a file from the temporary folder, each time the largest or the least recently used one as configured. Files are removed only while the limit would be exceeded by the new file (minus the file it replaces), the new file is published only when it fits, and storing ends with an error rather than looping or failing hard when nothing can be removed any more. With eviction disabled nothing is removed. The size of the cache counts every file in it once.",
 ["histories", "configurations", "fault_sequences"], "every content of the cache directory, including an empty one, every size limit and strategy",
 "Tests evict one file from a mocked file system.",
 [S+"cache/cache.go", S+"util/files.go"], [("deleteFilesFromCacheIfNeeded", S+"cache/cache.go"), ("FindLargestFile, FindLruFile", S+"util/files.go")],
 "interprocedural path analysis of SSA: symbolic sums of sizes on every path through the eviction loop, provenance of removed paths, case analysis of directory walk callbacks, conditional constant propagation per strategy",
 "All acyclic paths of the functions involved, for each strategy. Sizes are symbolic; other programs changing the cache meanwhile are out of scope.")

prop("C23", "Generated markup is well nested",
 "Every piece of HTML the program itself writes around article content opens and closes its elements properly nested, fills each placeholder exactly once with a value of the right kind, the bold and italic markers inserted into a text are balanced and nested within it, and markers are replaced by matching opening and closing elements.",
 ["inputs", "programs"], "every element kind and every nesting of elements, with any content",
 "Tests compare the output of single templates with literals.",
 [S+"generator/html.go", S+"parser/formatting.go", S+"parser/table.go"], [("templates", S+"generator/html.go"), ("tokenizeBoldAndItalic", S+"parser/formatting.go")],
 "path-sensitive evaluation of the texts written (literals and holes) read by an HTML tokenizer; abstract interpretation of the search for bold and italic text with lists of items known by what is open",
 "every path of every function writing markup, loops run up to twice; every state of the search; formatting across several elements and HTML within articles are outside")

prop("C24", "Book metadata and options reach the book with every driver",
 "Title, author, language, license and date of a project, and the configured style, cover, fonts, table of contents depth and data directory are passed on to the book by each output driver that supports them (the internal driver supports no license, date, depth and data directory). The optional ones (style, cover, fonts, depth, data directory) that are not set are left out instead of being passed empty. The entry of a page in the table of contents is its first heading and nothing more.",
 ["configurations"], "every combination of set and unset metadata and options, for each driver",
 "The driver functions are not covered by the tests.",
 [S+"generator/epub.go", S+"main.go"], [("GenerateEpubWithPandoc, GenerateEpubWithGoLibrary", S+"generator/epub.go")],
 "abstract interpretation of argument lists and calls on the book object per driver and per combination of set options",
 "every combination of set and unset options for each driver; pandoc and go-epub themselves are trusted")

prop("C25", "Malformed wikitext never crashes the program",
 "No article text, image name, server answer or file content makes the program panic by accessing a text, a list or the result of a match outside of its bounds, by dividing by zero, by writing into a map that does not exist, or by taking a value for one of another type without testing it. Malformed input - unclosed or truncated markup, empty names, missing parts - is either kept as text or reported as an error.",
 ["inputs"], "every wikitext, every server answer",
 "Tests parse a few hundred well-formed snippets; unbalanced or truncated markup is unbounded.",
 [S+"parser/cleaner.go", S+"parser/link.go", S+"parser/image.go", S+"parser/table.go", S+"parser/list.go", S+"parser/reference.go", S+"parser/nowiki.go", S+"generator/expand.go", S+"wikipedia/wikipedia.go"], [("index and slice expressions", S+"parser/cleaner.go")],
 "proof of inequalities over SSA values: dominating conditions, loop invariants found by induction over phis, pre- and postconditions of functions, lemmas about standard library functions and fixed regular expressions",
 "every index, slice, division and unassured type assertion in the packages that handle wikitext and answers; missing (nil) values and the positions of bold and italic markers kept in records (10 obligations) and maps kept in records are not decided")

prop("C26", "Every placeholder in parsed text has its own element",
 "Each placeholder the parser puts into the text is unique within the article, has the element it stands for registered before the text is rendered, and matches the pattern by which rendering finds placeholders. Markers for bold, italic and paragraphs never match this pattern and are all replaced before rendering, by each kind of output.",
 ["inputs"], "every article, every nesting and order of elements",
 "Tests check the placeholder numbers of small snippets; they cannot show that no two elements ever share one.",
 [S+"parser/tokenizer.go", S+"parser/pattern.go", S+"generator/expand.go"], [("getToken, setRawToken", S+"parser/tokenizer.go")],
 "static analysis over SSA: the parser counter is only ever increased and with every use, every placeholder made reaches a store of a non-nil element (path-sensitive, per call site), symbolic shape of every placeholder evaluated against the rendering pattern read from the source, must-replace analysis of markers per renderer, single parser state per article",
 "Decided for all inputs from the source. Article text that literally contains something like a placeholder is not judged; that placeholders are not cut into pieces by later parsing steps is not decided.")

prop("C27", "No loop or recursion goes on without making progress",
 "No round of a loop can leave everything that decides whether it goes on as it was, so that no text and no table, list or template makes the program hang: a cursor moves on (a step back only where something was removed), what a search finds is taken out of the text, a text being replaced until nothing is left to replace is given up when nothing was replaced, recursive calls get less than their caller got, and no step of the parser hands its whole text back to the function running all steps.",
 ["inputs"], "every loop and every recursive call of the program, for every wikitext and every answer of the server; not whether a text that is rewritten in each round can grow for ever, and not how long the server keeps asking to wait",
 "An input for which a loop hangs need not be among the tested ones, and a test that ends shows nothing about the others.",
 [S+"parser/template.go", S+"parser/tokenizer.go", S+"parser/cleaner.go", S+"parser/table.go", S+"parser/list.go", S+"parser/image.go"], [("evaluateTemplates", S+"parser/template.go"), ("tokenizeContent", S+"parser/tokenizer.go"), ("removeUnwantedInternalLinks", S+"parser/cleaner.go"), ("tokenizeTables", S+"parser/table.go"), ("parseImages", S+"parser/image.go")],
 "loop-measure and recursion analysis on the SSA form: linear facts with a difference-bound prover for the measures, a symbolic search for rounds through loop bodies that change nothing, and a whole-text flow analysis for the recursion of the parser",
 "All loops and direct recursive calls; the fixpoint over all parsing steps, the growth of rewritten texts and the number of retries the server asks for are not decided and are counted as such in the evidence.")

prop("C28", "Combined statistics are the sums of the articles' statistics",
 "Each number in the combined statistics is the sum of the same number over all articles of the book; link counts are added per target, and a link counts as uncovered exactly if its target is not among the articles. Each numeric value counted per article is included, and each kind of element is counted in its own number. Sorted lists are shown from their first element on without leaving one out up to their limit, and the number given for links is the number of links.",
 ["inputs"], "every set of article statistics",
 "Tests combine two small files; a new or swapped field would not be noticed.",
 [S+"generator/stats.go"], [("GenerateCombinedStats", S+"generator/stats.go")],
 "accumulation analysis of record fields over the loop of files (SSA, per call frame), path analysis of the uncovered condition, event counting per element handler",
 "all inputs; the count of words and the estimated reading time of an article itself are not judged")

prop("C29", "The result is written to the output file asked for",
 "The book or the combined statistics is written to exactly the path given by the output option, else to the one of the project file, else to the default one. On its way to the program or library that writes it, the path is only made absolute; a default file name replaces or extends it only because of the type of the output or because the path is a folder.",
 ["inputs", "configurations"], "every output option, project file and output type",
 "No test runs a command; a path that is cut, lower-cased or replaced in one of the three commands goes unnoticed.",
 [S+"main.go", S+"generator/epub.go", S+"generator/stats.go"], [("ensurePathsAndClearTempDir", S+"main.go"), ("generateProjectEbook", S+"main.go"), ("GenerateEpub", S+"generator/epub.go"), ("GenerateCombinedStats", S+"generator/stats.go")],
 "backward interprocedural dataflow from every place naming the file to write, with control-dependence of default names; symbolic execution of the project command for the choice of the path",
 "all option values; what pandoc and the EPUB library do with the path is assumed")

prop("C30", "Finished pages are reused exactly when that is allowed",
 "For an article whose page already exists the existing file is used instead of generating it again, unless regenerating is forced or the output is a statistics; a page is only ever taken over when this very file is known to exist. In all other cases the page is generated anew.",
 ["inputs", "configurations", "histories"], "every state of the cache, output type and setting of force-regenerate-html",
 "No test runs a command with an existing page.",
 [S+"main.go"], [("shouldRecreateHtml", S+"main.go"), ("processArticle", S+"main.go"), ("generateStandaloneEbook", S+"main.go")],
 "symbolic execution of the commands and of the workers, with facts about the existence of files and the settings at every place where a page enters the list of pages",
 "all paths; the content of an existing page is not compared with the article or the settings it was made with")

prop("C31", "Values in request addresses are escaped for their position",
 "Every value from an article or from the settings that becomes part of a request address is escaped for the position at which it is inserted, so that no title, file name or formula can change the address, other parameters or the host. Form bodies are encoded the same way. The host and base address come from the settings only.",
 ["inputs", "configurations"], "every title, image name, template text and formula",
 "Tests use names with few special characters.",
 [S+"wikipedia/wikipedia.go", S+"http/http.go"], [("URL construction", S+"wikipedia/wikipedia.go")],
 "interprocedural string-shape analysis: every request address is decomposed into literal text and inserted values, each judged by the escaping applied and its URL position",
 "All ways to build each address (all callers, phis and helper functions). Names of resources given by the server itself (math rendering) are inserted into the path as given; settings are trusted as host and base address.")

prop("C32", "Only unwanted parts of an article are removed, and all of them",
 "Before an article is parsed, an internal link is removed exactly if one of its prefixes is a category or neither a prefix of files nor an allowed one; links to files and links starting with a colon stay. A template is removed exactly if its name begins with an ignored or a trailing one, and a trailing one appears at the end of the article with its spelling and arguments (without unwanted templates in them). An image is left out exactly if it has no name or its type is one to ignore and isn't converted. Upper and lower case make no difference to any of this, and what follows a removed part is examined as well. Removing a comment never joins the line before it with text that follows the comment.",
 ["inputs", "configurations"], "every article text and all lists of prefixes, templates and media types",
 "Tests clean a few short texts with one or two list entries.",
 [S+"parser/cleaner.go", S+"parser/image.go", S+"parser/link.go"], [("removeUnwantedInternalLinks", S+"parser/cleaner.go"), ("handleUnwantedAndTrailingTemplates", S+"parser/cleaner.go"), ("escapeImages", S+"parser/image.go")],
 "symbolic execution of the functions asking the lists: every removal and every round without one is judged by what is known about the lists, the brackets and the names on this path; saved trailing templates, place where the search goes on and case of compared texts are checked; cutting off the line break before a comment must depend on what follows the comment (control dependence)",
 "all paths through one round, the rounds before it are summarised; that the search for the closing bracket finds the right one is not part of it")

prop("C33", "Each reference number leads to its reference",
 "Every usage of a reference in the text gets the number under which the content of the reference is stored and listed: the same name in the same group has the same number wherever it is used or defined, any other reference gets the next number of its group, and no number is given twice. The content of a reference is stored under its number in its group; a list of references contains every number of its group that has a content not listed yet, with this content, and none of another group. A reference within a list is found even if it directly follows the start of the list or another reference. Usages and entries are shown with the same number.",
 ["inputs", "histories"], "every article text: any sequence of references, named or not, in any groups, before, within and after lists",
 "Tests parse a dozen short texts with at most a few references.",
 [S+"parser/reference.go", S+"generator/html.go"], [("parseReferences", S+"parser/reference.go"), ("expandRefDefinition, expandRefUsage", S+"generator/html.go")],
 "symbolic execution of the numbering: in every round the number used, the number stored with the content, the number noted for the name and the new counter are compared as terms over the maps of groups; entries of lists are compared with the contents they show and the bound of their loop with the counter; the numbers shown are compared between usages and entries",
 "all paths through one round, the rounds before it are summarised; attributes and the ends of references are assumed to be found correctly")

prop("C40", "Rendered pages look as on Wikipedia",
 "The visual and textual content of a generated page corresponds to what Wikipedia shows for the same article, including correct bold and italic pairing, reference numbers, list and table structure.",
 ["inputs"], "every article",
 "Tests compare a few dozen snippets with expected output.",
 [S+"parser/tokenizer.go", S+"generator/html.go"], [("tokenizer and generator", S+"parser/tokenizer.go")],
 na="The reference behaviour (MediaWiki's rendering) is not in the source; deciding equality of the computed texts needs values no static argument over this source can bound.")

prop("C41", "The cache never holds more bytes than the configured maximum",
 "After every store the total size of the files in the cache is at most the configured maximum.",
 ["histories"], "every sequence of stores of any sizes",
 "Tests evict once with given numbers.",
 [S+"cache/cache.go"], [("deleteFilesFromCacheIfNeeded", S+"cache/cache.go")],
 na="A statement about sums of run-time file sizes across histories and about files that other programs write; static analysis cannot bound them. The structural part (when eviction runs, what it may remove, that it stops) is decided as C21.")
