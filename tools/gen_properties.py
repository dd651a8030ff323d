import json
P=[]
def p(id,title,st,over,q,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if hook: a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":q},"why_tests_cant":why,"anchors":a})

p("C01","A search returns exactly the matching lines",
"Searching an indexed repository returns exactly the lines of its indexed text files that contain a match of the pattern (RE2 syntax, matched line by line, `^`/`$` at line ends, `\\A`/`\\z` only at the start/end of the file), each exactly once with its text and 1-based line number, in line order within its file. In literal mode the pattern is taken verbatim, and with ignore-case set letters match under Unicode simple case folding. An empty result means no line matches.",
["inputs"],"every pattern, every combination of literal/ignore-case, every file content and size (empty lines, no trailing newline, CRLF, multi-byte text, files larger than the read buffer)",
"Existing tests grep a handful of fixed strings in one tiny in-memory file; the claim ranges over all patterns and all file contents.",
["index/index.go","index/grep.go","codesearch/regexp/match.go","codesearch/regexp/utf.go","codesearch/regexp/regexp.go"],
[("line oriented DFA","codesearch/regexp/match.go"),("byte program for UTF-8 classes and folding","codesearch/regexp/utf.go"),("grep loop over the whole file","index/grep.go grep2/fillFrom"),("literal quoting and flags","index/index.go GetRegexpPattern, Search")],
["index.Open(dir).Search(...)","/api/v1/search"])
p("C02","The trigram prefilter never hides a matching file",
"For every valid pattern, every indexed file that has a line matching the pattern is among the files the trigram index proposes for it, so the outcome of a search never depends on the prefilter. Analysing a pattern never crashes.",
["inputs"],"every regular expression (any nesting of alternation, repetition, classes, folding, anchors) and every text matching it",
"The existing table lists about fifty fixed pattern/query pairs; set-simplification thresholds, shared storage and Unicode folding only matter on combinations the table does not contain.",
["codesearch/index/regexp.go","codesearch/index/read.go","index/index.go"],
[("regexp analysis into trigram queries","codesearch/index/regexp.go analyze/concat/alternate/simplify"),("posting query evaluation","codesearch/index/read.go postingQuery")],
["index.RegexpQuery","index.Index.PostingQuery","index.Index.Search"])
p("C03","Context lines are the true neighbours of the match",
"With N context lines requested, each returned match carries, in file order and unmodified, the up to N lines that immediately follow it in the file and the up to N lines that immediately precede it, where preceding context does not reach back past the previous returned match of the same file. Blank lines count as lines, and context is only shorter than N at the file's boundaries or that previous match.",
["inputs"],"every file content, pattern and N from 0 to the maximum",
"Tests check first/last-N-lines helpers on one five line string; blank lines at the file's start, adjacent matches and missing final newlines are not covered.",
["index/grep.go","index/index.go"],
[("context extraction","index/grep.go lastNLines/firstNLines/grep2")],
["index.Index.Search Before/After","/api/v1/search"])
p("C04","Paging and limits cut the result set without losing or repeating",
"For a fixed index, file order is stable, and a page (offset, limit) contains exactly the matching files at those positions of the unpaged result, with all their lines; as long as the cap on matching lines is not reached, the reported number of files with matches is the same for every page. A cap on results never lets more matching lines through than the cap, and what it returns is a prefix of the uncapped result.",
["inputs","histories"],"every offset, limit and cap, including zero, beyond the end, and cuts in the middle of a file",
"No test uses offset, limit or a result cap.",
["index/index.go"],
[("collection counters in the search loop","index/index.go Search")],
["index.Index.Search","/api/v1/search rng, limit"])
p("C05","Path filters select exactly the files they describe",
"A search considers exactly the indexed files whose repository-relative path matches the include pattern (if given) and does not match the exclude pattern (if given). If the search pattern or either path pattern is not a valid regular expression the search reports an error and returns no results.",
["inputs"],"every pair of path patterns and every set of paths, including patterns that match only at the start or end of a path",
"No test passes a path filter or an invalid pattern to a search.",
["index/index.go","codesearch/regexp/match.go"],
[("include and exclude checks","index/index.go Search")],
["index.Index.Search","/api/v1/search files, excludeFiles"])
p("C06","Every file is either searchable or listed as excluded with a reason",
"After indexing a tree, every file in it (outside the version control system's own files) is either searchable by its content or appears exactly once in the excluded files list with the reason that applies to it, and never both. A file is excluded only for a documented reason: dot files when that option is on, not a regular file, not valid text, too long, too many distinct trigrams, or too many over-long lines; of an excluded dot directory everything below it is left out without being listed. A directory or file that cannot be read, or that vanishes while indexing, fails the build instead of crashing the process or silently producing a partial index.",
["inputs","fault_sequences"],"every directory tree and file content, every combination of dot-file and special-file options, files disappearing during the walk",
"The tests index one fixed directory and look only at whether the build succeeds and files can be opened.",
["index/index.go","codesearch/index/write.go"],
[("tree walk and exclusion decisions","index/index.go indexAllFiles/isTextFile/addFileToIndex"),("content heuristics","codesearch/index/write.go Add")],
["index.Build + Search","excluded_files.json","/api/v1/excludes"])
p("C07","Stored posting lists are exact at any volume",
"For every set of files added to an index and every three-byte string, the stored posting list names exactly the files containing that string, in increasing order without repetition, and intersections and unions of lists are exact; names are read back unchanged. This holds for any number of files and any volume of postings (including when in-memory buffers spill to disk), and when several indexes are built at the same time.",
["inputs","schedules"],"every sequence of added files, from none to more than the in-memory posting buffer holds, and concurrent builders in one process",
"The existing writer tests store three tiny files in sequence; varint width changes, spills, merging of spill files and concurrent builds are never reached.",
["codesearch/index/write.go","codesearch/index/read.go","codesearch/sparse/set.go"],
[("posting buffer, radix sort and spill merge heap","codesearch/index/write.go"),("posting readers","codesearch/index/read.go")],
["index.Create/Add/Flush","index.Open/PostingList/PostingAnd/PostingOr/PostingQuery/Name"])
p("C08","Merging two indexes equals indexing the merged file set",
"Merging an older and a newer index yields an index equivalent to one built from the newer index's files plus those of the older one that do not lie under any path the newer index claims: same names in the same order, same path list, and same posting list for every trigram.",
["inputs"],"every pair of indexes with arbitrary claimed paths and overlapping name ranges",
"One fixed pair of indexes is merged in the tests.",
["codesearch/index/merge.go"],
[("docid range maps and posting merge","codesearch/index/merge.go Merge")],
["index.Merge then index.Open"])
p("C09","Each search sees one complete revision of the repository",
"However searches, updates and excluded-file requests interleave, every search is answered completely from the content of exactly one indexed revision - the one named in the response - and never from a mixture, a partially built index or an index being removed. Concurrent searches do not influence each other's results, and a search that starts after another one returned never sees an older revision than it did.",
["schedules","histories"],"every interleaving of searches with index swaps, removal of the old index, and other searches",
"No test runs a search concurrently with an update.",
["searcher/searcher.go","index/index.go"],
[("searcher and index read-write locks","searcher/searcher.go Search/swapIndexes; index/index.go Search/Destroy")],
["Searcher.Search revision and lines","Searcher.GetExcludedFiles"],
[("live index","index searches are served from","searcher.Searcher.idx")])
p("C10","Updates are eventually visible and failures never lose the live index",
"While polling is enabled a new upstream revision becomes searchable after a later successful poll, and no rebuild happens when the revision has not changed. If pulling fails, or building does (because a source cannot be read, say, or the disk is full), or the old index cannot be deleted, searches keep being answered from a complete index (the previous one, or the newly built one), and the update is retried or completed at a later poll. The served revision follows the sequence of pulled revisions and never goes back on its own.",
["histories","fault_sequences"],"every sequence of upstream revisions, successful and failing pulls, failing builds and failing deletions",
"Nothing in the test suite exercises the update loop.",
["searcher/searcher.go","index/index.go","vcs/vcs.go"],
[("update loop","searcher/searcher.go updateAndReindex/waitForUpdate")],
["Searcher.Search revision","driver Pull calls"])
p("C11","An accepted update request is always followed by a fetch",
"When an update request for a repository with push updates enabled is acknowledged, a fetch of that repository starts after the request was made, whatever the repository is doing at that moment; requests that arrive while one is pending may share that one later fetch. A request for a repository without push updates is refused and causes no fetch. Requests never block, and they work the same with polling disabled.",
["schedules","histories"],"every timing of requests relative to startup, waiting, fetching and indexing, in any number",
"No test issues update requests to a running repository.",
["searcher/searcher.go","api/api.go"],
[("one-slot update channel","searcher/searcher.go Update/waitForUpdate/begin")],
["Searcher.Update result","driver Pull calls"])
p("C12","The indexing concurrency bound holds and nobody starves",
"At no moment are more repositories being cloned, fetched or indexed than the configured maximum, at startup and during later updates taken together. A failing clone, fetch or build gives its slot back, so that every repository is eventually processed.",
["schedules","configurations","fault_sequences"],"every number of repositories and every bound from 1 up, with any mix of successes, failures and update bursts",
"No test starts more than one repository.",
["searcher/searcher.go"],
[("token limiter","searcher/searcher.go limiter, newSearcherConcurrent, updateAndReindex")],
["driver Clone/Pull overlap"])
p("C13","Graceful shutdown always completes and leaves nothing running",
"After a graceful stop is requested, each repository finishes the update it has already begun, if any (also one still waiting for a free slot), begins no further one, and then reports itself stopped; waiting for it always returns, whatever the repository was doing when the stop arrived, also if stop is requested more than once or updates are disabled. The daemon then exits with status 0, leaving complete index directories that the next start reuses.",
["schedules"],"every instant of the stop request relative to startup gate, waiting, polling timers, pending update requests, fetching, indexing and swapping",
"No test stops a repository.",
["searcher/searcher.go","cmds/houndd/main.go"],
[("shutdown channel and done channel","searcher/searcher.go Stop/Wait/waitForUpdate"),("signal handling","cmds/houndd/main.go handleShutdown")],
["Searcher.Stop/Wait","houndd SIGTERM exit status"])
p("C14","A stored index is reused exactly when it matches",
"On startup a stored index is reused, without reindexing, if and only if it is complete and was built for the same repository URL and the same revision (for unchanged indexing options); otherwise a new index is built. No index directory is ever served for two repositories, and what a reused index answers equals what a freshly built one would.",
["histories","configurations"],"every content of the database directory left by earlier runs and every set of configured repositories, including several with the same URL",
"No test restarts over an existing database directory.",
["searcher/searcher.go","index/index.go"],
[("manifest lookup and claiming","searcher/searcher.go findExistingRefs/find/claim"),("manifest file","index/index.go Read/writeManifest")],
["index directories before/after start","search results after start"])
p("C15","Index directories do not leak and live ones are not deleted",
"Once startup has finished, the database directory holds exactly one index directory per running repository, and after every later update, successful or not, this is so again; stale, foreign or partially written index directories are removed; one whose removal fails is removed at the next start at the latest. A build leaves no temporary files behind. A directory still in use for searching is never deleted, and nothing other than index directories is removed.",
["histories","fault_sequences"],"every history of starts, updates, failed builds and configuration changes",
"No test looks at the database directory over more than one build.",
["searcher/searcher.go","index/index.go"],
[("removal of unclaimed indexes","searcher/searcher.go removeUnclaimed"),("destroying the replaced index","searcher/searcher.go swapIndexes; index/index.go Destroy")],
["listing of the database directory"])
p("C16","A crash at any point never yields wrong search results",
"If the process is killed at any point while indexing, swapping or deleting index directories and then restarted, it starts, serves for each repository the complete content of the revision it reports, and removes whatever the crash left behind. An index directory that was not completely written, or is partially deleted, is never served.",
["crash_points"],"every point between two file system operations of building, swapping and removing an index",
"No test interrupts anything.",
["index/index.go","searcher/searcher.go","codesearch/index/write.go"],
[("manifest written last","index/index.go Build/writeManifest"),("startup garbage collection","searcher/searcher.go findExistingRefs/removeUnclaimed")],
["search results after restart","index directories after restart"])
p("C17","One repository's failure does not affect the others",
"If a repository cannot be set up (unknown or misconfigured version control, failing clone or fetch, failing index build, a full disk), startup still completes, every other repository is served as if the failing one were not configured, and the failing one is reported as failed and is not served. Later failures of one repository likewise leave the others' searches and updates unaffected.",
["fault_sequences","configurations"],"every subset of repositories failing in every phase",
"No test starts several repositories or one that fails.",
["searcher/searcher.go","cmds/houndd/main.go","vcs/vcs.go"],
[("per-repository error collection","searcher/searcher.go MakeAll")],
["searcher.MakeAll result maps","/api/v1/repos","/api/v1/search"])
p("C18","The git working copy mirrors the chosen branch's tip",
"After a successful clone or fetch of a git repository, the indexed tree equals the tip of the configured branch (the configured one, else the detected default branch if detection is on, else master) on the remote at that time and the reported revision is that commit - including after force-pushes, rewritten history, file deletions, mode or type changes, a switch of the remote default branch, and locally modified or left-over tracked files.",
["histories"],"every history of upstream commits, rewrites and branch changes between fetches",
"The git tests check reference selection with a stub and read the head of the current checkout; no upstream history is ever fetched twice.",
["vcs/git.go","vcs/vcs.go"],
[("fetch and hard reset","vcs/git.go Pull"),("default branch detection","vcs/git.go targetRef/detectRef")],
["WorkDir.PullOrClone revision and tree"])
p("C19","A watched local directory is reindexed exactly when it changes",
"For a local directory with change watching on, the reported revision changes whenever any file's path or content changes, and stays the same when nothing changes; with watching off it is constant. Only URLs of the local file form are accepted, an already linked directory is not linked again, and indexing follows the link to the directory's current content.",
["inputs","histories"],"every pair of directory states and every sequence of edits",
"The local driver has no tests.",
["vcs/local.go","vcs/vcs.go","index/index.go"],
[("directory hash","vcs/local.go HeadRev/myHash"),("symlinked working directory","vcs/local.go Clone")],
["WorkDir.PullOrClone revision"])
p("C20","Search requests are interpreted and answered as documented",
"A search request's parameters (query, repos, range, files, excludeFiles, ignore-case, literal, context, result limit, stats) have their documented meaning, with documented defaults and clamps for missing, malformed or out-of-range values; unknown repositories are ignored and `*` means all. The response contains exactly the repositories that have matches, each with that repository's own result and revision, or only an error if any selected repository's search fails.",
["inputs","configurations"],"every combination of parameter values, valid or malformed, over any set of repositories",
"The only API test parses two booleans.",
["api/api.go","index/index.go"],
[("parameter parsing","api/api.go parseAs*/parseRange*"),("fan-out and collection","api/api.go searchAll")],
["HTTP GET/POST /api/v1/search"])
p("C21","Every API request gets a well-formed answer with the right status",
"Update, webhook, excluded-files and repository-list requests are answered, for every method, body and repository name, with a JSON document and the documented status: wrong method 405, malformed webhook 400, unknown repository 404 (in the repository list of an update request unknown names are ignored), push updates disabled 403, otherwise 200. A refused or malformed request triggers no update of the refused repository, an accepted one triggers an update of exactly the named repositories, and no request brings the server down or leaves it without an answer.",
["inputs","configurations"],"every method, body, and repository name over any configuration",
"No test sends any of these requests.",
["api/api.go"],
[("request handlers","api/api.go Setup")],
["HTTP responses of /api/v1/update, /api/v1/github-webhook, /api/v1/excludes, /api/v1/repos"])
p("C22","Version control credentials are never disclosed to clients",
"Nothing from any vcs-config section, global or per repository, ever appears in a response of the server - not in the repository list, search results, error answers, or the HTML pages and their embedded data.",
["inputs","configurations"],"every configuration with vcs-config at global level, repository level or both, and every endpoint",
"A single test marshals one repository; merged configurations and the endpoints are not covered.",
["config/config.go","api/api.go","ui/content.go","ui/ui.go"],
[("secret message type","config/config.go SecretMessage.MarshalJSON")],
["every HTTP response body"])
p("C23","Configuration defaults and precedence",
"Loading a configuration yields, for every option, the value given in the file, or the documented default when it is absent; a relative database path is taken relative to the configuration file. A repository's vcs-config is the union of its own and the global one for its version control system, with the repository's own values taking precedence and no influence between repositories. A missing file, or one that is not exactly one well-formed configuration, is reported as an error.",
["inputs","configurations"],"every subset of options present, every value, every mix of global and repository vcs-config",
"Tests load the two example files.",
["config/config.go"],
[("defaulting and merging","config/config.go initRepo/initConfig/mergeVCSConfigs/LoadFromFile")],
["config.LoadFromFile result"])
p("C24","Readiness is reported truthfully and never regresses",
"From the moment the daemon listens, the health check path is answered with 200 and every other path with 503 until all repositories have been processed; from then on every request is answered by the user interface or API, and never by 503 again. This holds for any health check path and any number of concurrent requests across the transition.",
["schedules","configurations"],"every interleaving of requests with the startup transition",
"The web package has no tests.",
["web/web.go","cmds/houndd/main.go"],
[("mux swap under lock","web/web.go ServeHTTP/serveWith")],
["HTTP status over time"])
p("C25","The command line client's result blocks lose and duplicate nothing",
"When matches of a file with their context lines are merged into blocks for display, every matching line and every context line delivered by the server appears exactly once, in increasing line order, with matching lines marked as such; blocks that share a line are merged into one and others are kept apart.",
["inputs"],"every list of matches as a server delivers it (increasing line numbers; no match's context begins before that of the match before it), with any context overlap",
"Ten fixed examples are tested.",
["client/coalesce.go","client/ack.go","client/grep.go"],
[("block merging","client/coalesce.go")],
["client.CoalesceMatches, hound output"])
p("C26","The command line client asks for and shows what the user meant",
"The query, repository list, path filter, ignore-case and context options given on the command line, and the headers and host from the user's configuration file, reach the server unchanged for every text, including characters with special meaning in URLs. In the default output format the matches returned are all printed, grouped by repository and file, with their line number. An error reported by the server is shown and gives a non-zero exit status, and so does output that cannot be written.",
["inputs"],"every query and option value, every server response",
"The client's request building and output are not tested.",
["client/client.go","client/ack.go","client/grep.go","cmds/hound/main.go"],
[("request building and presenting","client/client.go; cmds/hound/main.go")],
["HTTP request received by a server, output and exit status of hound"])
p("C27","Auto-generated files are flagged correctly",
"A search result marks a file as auto-generated exactly if the repository's configuration lists it or, when the configuration lists none, the repository's git attributes at the indexed revision mark it as generated. The mark has no influence on which matches are returned.",
["inputs","histories"],"every configured list and every history of attribute changes",
"One test looks at the driver's list for a fixed tree; no test covers the flag in results or updates.",
["index/index.go","vcs/git.go","searcher/searcher.go"],
[("attribute listing","vcs/git.go AutoGeneratedFiles"),("flag in results","index/index.go Search")],
["search result AutoGenerated"])
p("C28","Command-driven version control drivers report the revision they fetched",
"For Subversion, Mercurial and Bazaar repositories, a clone or fetch runs the tool in the right directory with the configured options, and reports the revision the tool shows after updating; a failing tool, at any step, is reported as an error rather than as a revision, and the credentials and options given in the configuration are passed as separate arguments unchanged.",
["fault_sequences","inputs"],"every sequence of tool successes, failures and outputs, every configuration value",
"Only one configuration parsing test exists for these drivers.",
["vcs/svn.go","vcs/hg.go","vcs/bzr.go"],
[("tool invocations","vcs/svn.go, vcs/hg.go, vcs/bzr.go")],
["WorkDir.PullOrClone/HeadRev with stand-in tools on PATH"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
