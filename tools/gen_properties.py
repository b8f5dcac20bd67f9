#!/usr/bin/env python3
# Regenerates /verif/properties.jsonl from the table below (kept as a table so that ids stay unique).
import json,os
P=[]
def p(id,title,stmt,over,text,why,files,mech,state=None,obs=None):
    d=dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d["anchors"]["state"]=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    if obs: d["anchors"]["observe_at"]=obs
    assert len(title)<=80,(id,title)
    P.append(d)
core="src/ferryd/core/"; jobs="src/ferryd/jobs/"; dmn="src/ferryd/"; db="src/libdb/"; eo="src/libeopkg/"; lf="src/libferry/"
RI=core+"repo_index.go"; RP=core+"repo.go"; PO=core+"pool.go"; AP=core+"api.go"; UT=core+"util.go"; TM=core+"transit_manifest.go"
ST=jobs+"store.go"; PR=jobs+"processor.go"; WK=jobs+"worker.go"; JM=jobs+"main.go"; DE=jobs+"delta.go"; TJ=jobs+"transit_job.go"
HA=dmn+"handlers.go"; SE=dmn+"server.go"; LK=dmn+"lockfile.go"; MO=dmn+"monitor.go"; LV=db+"leveldb.go"
nt="No existing test reaches this code: the 16 tests cover the XML escaping writer, manager start-up, one manifest, and eopkg parsing. "

p("C01","Published index files are only ever replaced by complete new versions",
 "While a repository is being re-indexed, every published index file (plain, xz, zst, and the checksum files) is replaced only by an atomic rename of a freshly and successfully produced temporary file, never written in place, and no rename happens before all of them have been produced. A successful re-index replaces all of them; a re-index in which any production step fails leaves every published file untouched, removes its temporary files and reports failure.",
 ["crash_points","fault_sequences","inputs"],"every failure or crash at any step of an index rebuild, for any repository content",
 nt+"They never fail a step of the rebuild.",[RI,UT,eo+"util.go"],[("write .new files, then rename",RI),("cleanup of .new files on error",RI)],[("published index set","the files clients download",RI)],["filesystem of the repository directory"])
p("C02","Checksum and compressed index files match the index they are published with",
 "Each checksum file published by a re-index holds the hex SHA-1 or SHA-256 digest (as its name says) of the entire content of exactly the file it is named after, as published in the same rebuild. The compressed variants are compressed from that same plain index.",
 ["inputs","fault_sequences"],"every index rebuild of any repository content",nt,[RI,UT,core+"mmap.go",eo+"util.go"],[("digest written next to its file",RI),("mmap of the whole file into the hash",UT)])
p("C03","The index lists exactly the published build of every non-obsolete package",
 "A rebuilt index contains, for every package name in the repository that is not obsolete (nor the -dbginfo companion of an obsolete name), exactly one entry, namely its published build, in ascending ID order, wrapped in one document with the distribution, components and groups assets. Under an entry it offers exactly those of the repository's deltas for that package that lead to the published release, with that delta's own source release, location, size and hash.",
 ["inputs","histories"],"every repository content and history",nt,[RI,RP],[("collect published IDs and sort",RI),("obsolete filter",RI),("delta filter on target release",RI)])
p("C04","Every successful repository change is followed by a re-index of that repository",
 "Creating, cloning into, pulling into, copying into, removing from, trimming or adding packages to a repository re-indexes exactly the changed repository after the change and before success is reported, and reports failure if that re-index fails. The only exception is a copy request that explicitly asks to skip indexing, which must not re-index.",
 ["histories","inputs"],"every management operation with any arguments",nt,[AP,DE],[("operation ends in an index of the target",AP)])
p("C05","Listing an item in a repository takes exactly one pool reference",
 "Whenever a package or delta becomes newly listed in a repository, its pool reference count goes up by exactly one (a new pool record starts at one), and when it is already listed there nothing is counted. No other operation raises a count.",
 ["histories","inputs"],"every sequence of add, reference, clone, pull and copy operations",nt,[RP,PO],[("reference before listing",RP),("new record with count one or increment",PO)],[("reference count","number of repositories listing the item",PO)])
p("C06","References are released once and pooled files go only with the last reference",
 "Each removal of an item from a repository lowers its pool reference count by exactly one. The pooled file and its record are deleted if and only if the count has reached zero, otherwise the lowered count is stored.",
 ["histories","inputs"],"every sequence of removals over any number of repositories",nt,[PO,RP],[("decrement then test",PO)],[("reference count","number of repositories listing the item",PO)])
p("C07","An item is listed only after it is pooled and placed in the repository tree",
 "A repository's record comes to list a package or delta only after, in the same operation, its pool reference has been stored and its file has been hard-linked or copied from the pool into the repository's own tree at the location the index advertises. If any of these steps fails the operation reports failure and the repository's record is left as it was.",
 ["crash_points","fault_sequences"],"every failure or crash between the steps of adding an item",nt,[RP,PO],[("reference, link, then store",RP)])
p("C08","Removals are ordered so that a crash never leaves a listed item without its file",
 "When a package is removed, the repository's record stops listing it (and the deltas that go with it) before its file or its pool reference is given up, and a pool record is deleted before its pooled file. When an item is added to the pool, its file is in place before its record is stored.",
 ["crash_points"],"a crash between any two steps of an add or a removal",nt,[RP,PO],[("store record before removing files",RP),("delete record before removing pooled file",PO)])
p("C09","A pool record describes exactly the file that was pooled",
 "A new pool record stores the SHA-1 digest and the size of the file that was placed in the pool, the relative location at which it was placed, the package's own identity and metadata, and for a delta the identities and releases of its two endpoint packages as known to the pool. A delta whose endpoints are not pooled is refused.",
 ["inputs"],"every package or delta file accepted into the pool",nt,[PO,UT],[("hash, size and URI stored before the record is written",PO)])
p("C10","The published build is always the highest release available in the repository",
 "After any addition or removal, the build a repository publishes for a package is one of its available builds with the highest release number; adding an older build never changes it. A package whose last build is removed disappears from the repository.",
 ["histories","inputs"],"every history of additions and removals in any order",nt,[RP],[("compare with current tip on add",RP),("recompute maximum on removal",RP)],[("published build","tip served in the index",RP)])
p("C11","Uploads that do not advance the release are rejected before anything changes",
 "A package arriving through an upload is accepted only if the target repository does not have the package yet or its release is strictly higher than the published one; a lower or equal release is an error. The decision is made before the pool, the repository tree or any record is modified for that package, and bulk imports are exempt.",
 ["inputs","histories"],"every uploaded package against every repository state",nt,[RP,AP,TJ],[("strict comparison against the published build",RP)])
p("C12","Nothing from an upload is imported before the whole upload is verified",
 "An upload manifest is accepted only if its version is 1.0, it names a target and at least one file, and every file has a non-blank name ending in .eopkg and a non-blank digest. Before any package is imported every listed file has been read in full and its SHA-256 found equal to the manifest's, and the target repository exists; otherwise the upload job fails and nothing is imported.",
 ["inputs","fault_sequences"],"every manifest content and every corruption of its payload","One test parses a single valid manifest; no invalid manifest or corrupted payload is tried.",[TM,TJ],[("manifest validation",TM),("payload verification before import",TJ)])
p("C13","Uploaded files are deleted only after their import has fully succeeded",
 "The files of an upload and its manifest are removed from the incoming directory only after all of its packages were imported and the repository was re-indexed successfully, and then all of them are. On any failure all of them stay in place.",
 ["fault_sequences","crash_points"],"every failure point of an upload job",nt,[TJ],[("removal after import",TJ)])
p("C14","Removing by source removes exactly the matching builds",
 "Removing a source from a repository removes every available build of that repository whose source name matches exactly and, if a positive release is given, whose release equals it; nothing else is removed. If nothing matches, the request fails and changes nothing.",
 ["inputs","histories"],"every repository content, source name and release",nt,[RP],[("selection while iterating the repository",RP)])
p("C15","Copying by source copies exactly the matching builds into the target",
 "Copying a source takes every available build of the source repository whose source name matches exactly and, if a positive release is given, whose release equals it, and references exactly those in the target repository, never the other way round. If nothing matches, the request fails and changes nothing.",
 ["inputs","histories"],"every pair of repositories, source name and release",nt,[RP,AP],[("selection while iterating the source repository",RP)])
p("C16","Pulling brings in only missing packages and strictly newer tips",
 "A pull references in the target exactly the source's published build of each package the target lacks or whose published release in the source is strictly higher; it refuses, before referencing anything, when the target's is higher than the source's. It removes nothing, synchronises the source's assets first, and reports exactly the names it brought in.",
 ["inputs","histories"],"every pair of repository contents",nt,[RP,AP],[("compare published releases",RP)])
p("C17","Cloning creates a new repository with all builds and deltas, or only the tips",
 "A clone requires an existing source and creates a target that did not exist. A full clone references every available build and every delta of every package of the source; otherwise exactly the published build of every package and no deltas, and the source's asset files are copied in both cases.",
 ["inputs","histories"],"every source repository content, both clone modes",nt,[RP,AP],[("collect IDs and reference them",RP)])
p("C18","Trimming keeps the newest builds and never the wrong ones",
 "Trimming a repository to N builds rejects N below one without changing anything. For every package it removes exactly those builds beyond the N with the highest release numbers, and never the published one.",
 ["inputs","histories"],"every N and every repository content",nt,[RP],[("sort descending, remove the tail",RP)])
p("C19","Trimming obsoletes removes all builds of obsolete packages and nothing else",
 "Trimming obsoletes removes all available builds of every package whose name, or name without its -dbginfo suffix, is listed as obsolete in the repository's distribution file, and no other build. It fails without changing anything when the repository has no distribution file.",
 ["inputs","histories"],"every repository content and obsolete list",nt,[RP,eo+"distribution.go"],[("name normalisation and obsolete lookup",RP)])
p("C20","Deleting a repository releases everything it lists and only its own directories",
 "Deleting a repository drops the reference of every available build and every delta of every package it lists, removes its package records and its own record in one transaction, and then removes only that repository's own directories; a failure leaves directories and record in place. Deleting an unknown repository fails.",
 ["histories","fault_sequences"],"every repository content and failure point",nt,[RP],[("release cycle inside the transaction",RP)])
p("C21","Removing a build garbage-collects exactly the deltas that start or end at it",
 "When a build is removed from a repository, every delta of that package listed there whose source or target is that build is removed and released with it, and all other deltas stay listed.",
 ["histories","inputs"],"every set of deltas around the removed build",nt,[RP],[("partition of the delta list by endpoints",RP)])
p("C22","Deltas are only built from an older to a newer build of the same package",
 "A delta is produced only when the old release is lower than the new one and the name, distribution release and architecture of both packages are equal, checked against both the index metadata and the packages' own metadata. Delta jobs only build from older available builds to the newest one, and what is recorded names the right source and target.",
 ["inputs","histories"],"every pair of packages offered for a delta","Two fixed packages are tried once in the right order.",[eo+"util.go",eo+"delta.go",DE,RP],[("applicability predicate",eo+"util.go")])
p("C23","A delta archive carries everything of the new package that the old one lacks",
 "A delta contains every member of the new package except its payload tarball, plus a payload tarball with exactly those entries of the new payload whose content hash is absent from the old package or which have no hash. It is declared pointless exactly when every entry would have to be included, no payload is attached when none would, and a failed production leaves no archive behind and reports an error.",
 ["inputs","fault_sequences"],"every pair of packages and every I/O failure","One pair of packages is tried, for lack of errors only.",[eo+"delta.go"],[("hash difference map",eo+"delta.go"),("partial copies",eo+"delta.go")])
p("C24","Delta attempts are skipped permanently only when known pointless",
 "A delta is marked as never to be attempted again only when its production reported that it is pointless, and then under its own ID. Marked deltas and deltas already listed are not produced again, a delta already in the pool is referenced instead of rebuilt, and any other production failure fails the job; a produced delta is included with the mapping of its own pair and its staged file removed only after that.",
 ["histories","fault_sequences"],"every outcome of producing a delta",nt,[DE,PO],[("skip record",PO),("per pair decision",DE)])
p("C25","Requests reach the operation they name with their arguments intact",
 "For every management request, the command-line arguments, the client call, the wire request, the queued job and the executed operation carry the same repository names, source names, release numbers, limits, paths and flags in the same roles, and the operation executed is the one requested.",
 ["inputs"],"every request kind and every argument value",nt,[HA,lf+"main.go",jobs+"copy_source.go","src/ferryctl/cmd/copy_source.go"],[("one handler, constructor and job type per operation",HA)])
p("C26","Every kind of job that can be queued can be executed after reload",
 "Every job kind that can be queued is recognised when loaded from the queue, yields the handler for that kind with the parameters that were stored, and is put in the queue whose discipline it declares. A stored job with an unknown kind or the wrong number or form of parameters is refused with an error and never crashes the daemon.",
 ["inputs","histories"],"every job kind and every stored parameter list",nt,[JM,DE,jobs+"transit_job.go"],[("type switch over kinds",JM),("parameter count checks",JM)])
p("C27","Client and daemon agree on routes, methods and message formats",
 "Every client call uses a path and HTTP method that the daemon routes to the operation of the same meaning, sends the message type that the handler decodes, and decodes the message type that the handler encodes. Every routed operation that needs a message body is reachable by POST, and errors the daemon reports reach the caller as errors.",
 ["inputs"],"every client call",nt,[lf+"main.go",SE,HA],[("route table",SE)])
p("C28","An accepted request is queued exactly once; a rejected one never is",
 "A management request whose body cannot be decoded is answered with an error status and queues nothing. Every other management request queues exactly one job, and if the job cannot be stored the requester is told with an error status instead of success.",
 ["inputs","fault_sequences"],"every request body and every storage failure",nt,[HA,PR],[("decode, check, push",HA)])
p("C29","Every claimed job is executed once and recorded under its true outcome",
 "A job taken from the queue is executed exactly once and afterwards removed from the queue it came from and recorded, with its timing and description, among the failed jobs with its error if handling it failed, else among the completed jobs. A worker that fails to fetch or retire a job keeps running.",
 ["histories","fault_sequences"],"every job outcome and queue failure",nt,[WK,ST],[("fetch, process, stamp, retire",WK),("outcome bucket",ST)])
p("C30","Jobs are claimed one at a time, oldest first, and never twice",
 "Claiming a job picks the first unclaimed job in queue order, marks it claimed with its start time in storage under the same lock and transaction, and hands it out under its own identity; a claim that cannot be stored hands out nothing. Sequential jobs are processed by exactly one worker.",
 ["schedules","histories"],"every interleaving of workers and pushes",nt,[ST,PR,WK],[("claim under mutex in a transaction",ST),("one sequential worker",PR)])
p("C31","Jobs interrupted by a crash are put back in the queue at start-up",
 "When the job store is opened, every claimed job of both queues is stored back as unclaimed with its start and end times cleared, and nothing else about it changed, before any worker can claim; if that fails, opening fails. No other operation un-claims jobs.",
 ["crash_points","histories"],"a crash at any time with any set of claimed jobs",nt,[ST],[("unclaim both queues on open",ST)])
p("C32","The job history is bounded and can be cleared",
 "Each of the completed and failed histories holds at most 100 records: records are written to slots 0 to 99 in turn, with the position stored alongside, so the oldest is overwritten. Resetting a history removes its position and all its records and touches neither the other history nor the queues.",
 ["histories"],"every number of completed and failed jobs",nt,[ST],[("slot counter with wrap",ST)])
p("C33","Every queued job gets a fresh identity that preserves queue order",
 "The identity given to a queued job is determined and stored under one lock, is the successor of the highest one in that queue, and is encoded so that storage order is numeric order. Therefore no queued job is ever overwritten by another and jobs run in the order they were queued.",
 ["schedules","histories"],"every interleaving of pushes, claims and retirements",nt,[ST,LV],[("next sequence under mutex",ST),("big-endian keys",LV)])
p("C34","Database transactions apply completely or not at all",
 "All puts and deletes made through the handle of a transaction, including through its sub-buckets, are collected and written in one atomic write after the transaction's function returns without error; if it returns an error nothing of it is written and the error is returned. Writes outside a transaction go straight to storage, and storage errors are returned.",
 ["fault_sequences","crash_points"],"every transaction body and every failure within it",nt,[LV],[("batch handle shared by sub-buckets",LV)])
p("C35","Buckets are isolated from each other",
 "Reading, writing, deleting and iterating in a bucket affects or reveals only keys of that bucket, whatever its name, even when another bucket's name starts with the same characters; iteration reports keys exactly as they were stored. Application keys that look like internal bucket markers are refused.",
 ["inputs"],"every bucket name and key",nt,[LV],[("bucket prefix plus separator for keys and ranges",LV)])
p("C36","Data handed out while iterating the database is not kept without a copy",
 "The key and value slices passed to an iteration callback are only used during that callback: whatever code retains beyond it is a copy or a decoded object, and iterators are always released.",
 ["inputs","histories"],"every iteration callback in the code base",nt,[ST,RP,PO,LV],[("copy before retaining",ST)])
p("C37","Every stored object is encoded and decoded independently of all others",
 "Each object is encoded with a fresh encoder and each stored value decoded with a fresh decoder fed with exactly that value, so that any stored value can be read back alone, in any order and by concurrent readers. Encoding or decoding errors are reported, never swallowed, and encoded bytes are not modified after they are handed out.",
 ["histories","schedules"],"every order of writes and reads",nt,[db+"transcoder.go",LV],[("new transcoder per operation",LV)])
p("C38","Locks are always released and never taken in conflicting order",
 "On every path, including error paths, each lock taken by an operation is released exactly once before the operation returns; no operation waits for a lock it already holds; and no two operations that can run concurrently take the same two locks in opposite orders. Hence no sequence of requests and jobs can block the daemon on its own locks.",
 ["schedules","fault_sequences"],"every interleaving of operations and every error path",nt,[RP,RI,ST,LK],[("lock with deferred unlock",RP)])
p("C39","Shared state is only touched under its lock",
 "The table of loaded repositories, the queues and histories of jobs, and the read-modify-write of a repository's package records are only accessed while holding the lock that belongs to them, so concurrent jobs and status requests neither lose updates nor crash the daemon.",
 ["schedules"],"every interleaving of jobs and requests",nt,[RP,ST],[("per structure mutexes",RP)])
p("C40","Only one daemon works on a data directory at a time",
 "The daemon opens its databases and its socket only while holding an exclusive lock on the data directory, refuses to start if it cannot get it, and gives it up only after its workers have stopped and its databases are closed, or when the process ends. The process ID of the holder is recorded in full.",
 ["schedules","crash_points"],"every interleaving of start-up and shutdown of several daemons",nt,[LK,SE,dmn+"main.go"],[("exclusive file lock before binding",SE)])
p("C41","The control socket is restricted before requests are served",
 "A socket the daemon creates itself is owned by the daemon's user and has mode 0660 before the first request is served, start-up fails if that cannot be established, and the socket file is removed at shutdown. A socket inherited from the service manager is never re-permissioned or deleted, and exactly one inherited socket is accepted.",
 ["configurations","fault_sequences"],"both start-up modes and every failure",nt,[SE],[("chown and chmod in bind",SE)])
p("C42","Shutdown waits for running work and closes things in a safe order",
 "On shutdown the upload watcher and all workers have stopped, with the jobs in progress finished and recorded, before the job store is closed and that before the package database; stopping twice is harmless and every worker is told to stop and waited for.",
 ["schedules"],"a shutdown at any time, with any jobs in progress",nt,[SE,PR,WK,MO],[("ordered close",SE),("wait group over workers",PR)])
p("C43","Names from outside cannot make the daemon touch files outside its directories",
 "Repository names, upload manifest entries and the identity, source and version fields of packages, which come from clients or files, are refused if they would designate a path outside the directory the daemon uses for them. No such name reaches a create, write, link, rename or delete unchecked.",
 ["inputs"],"every name supplied by a client, a manifest or a package",nt,[RP,TM,eo+"package.go",core+"purge_cloudflare.go"],[("name checks at the boundary",RP)])
p("C44","Malformed packages and replies cannot crash the daemon",
 "A package with missing history, source name, description or summary, an upload with odd content, or a truncated reply from a remote service results in an error for that job, never in an out-of-range access, a nil dereference or an explicit panic in the daemon.",
 ["inputs"],"every package, manifest, asset and remote reply","The fixtures are well-formed packages.",[eo+"package.go",eo+"metadata.go",eo+"main.go",core+"purge_cloudflare.go"],[("validation when metadata is read",eo+"package.go")])
p("C45","Every opened file, archive, mapping and database is closed on every path",
 "Whatever an operation opens (files, archives, memory maps, iterators, databases, response bodies) is closed exactly when that operation ends, on success and on every error path, unless ownership is handed to a longer-lived object that closes it.",
 ["fault_sequences"],"every error path of every operation",nt,[UT,core+"mmap.go",eo+"package.go",eo+"delta.go",LV,lf+"main.go"],[("deferred close",UT)])
p("C46","Escaping of index text does not depend on how writes are split",
 "The text written to the index is the same however the encoder splits it into writes: a character split across two writes is handled like one written whole, every character class that must be escaped is, invalid bytes become the replacement character, and the reported count and errors follow the writer contract.",
 ["inputs"],"every text and every split of it into writes","Each test text is passed in a single write.",[core+"escape.go"],[("rune-wise escaping",core+"escape.go")])
p("C47","Failures are never reported as success",
 "If a storage, file-system or decoding step that an operation depends on fails, the operation and the job that runs it report failure; errors are dropped only where the step is explicitly best-effort (logging, cleanup of temporary files and empty parents, file times).",
 ["fault_sequences"],"every failure of every step",nt,[AP,RP,PO,RI,UT,TJ,ST],[("error propagation",AP)])
p("C48","Placing a file never damages an existing one and copies are complete",
 "Placing a package file hard-links it or, failing that, copies its entire content from the beginning with default read permissions, and reports every failure, including a missing source. If the destination already is the same file, its content is preserved.",
 ["inputs","fault_sequences","crash_points"],"every source and destination, including re-runs after a crash",nt,[UT],[("link or copy",UT)])
p("C49","All recorded times are UTC",
 "Every time the daemon records or reports, for jobs and for its own start, is expressed in UTC, as are the durations computed from the current time.",
 ["configurations","inputs"],"every local time zone",nt,[ST,WK,SE,lf+"types.go"],[("conversion at the source",ST)])
p("C50","Status and listings report every item, under the right heading",
 "A status reply lists all queued and running jobs, all recorded failures and all recorded completions, each under its own heading with its stored timing and description; repository and pool listings report every repository, and every pool item with its reference count. A failure to read any of them is reported as an error, not as a shorter list.",
 ["histories","fault_sequences"],"every content of the queues, histories, pool and repositories",nt,[HA,ST,RP,PO],[("copy of each record into the reply",HA)])
p("C51","Directory clean-up removes only empty parents and private work directories",
 "Removing a package file removes at most its two enclosing directories, and only when they are empty. Recursive deletion is applied only to the deleted repository's own directories and to a delta builder's own work directory.",
 ["inputs"],"every directory content",nt,[UT,RP,eo+"delta.go"],[("emptiness check before removing",UT)])
p("C52","The upload watcher keeps running and submits exactly the completed manifests",
 "The watcher of the incoming directory submits one job for each completed write of a regular file with the manifest suffix directly in that directory and for nothing else, keeps running whatever events or watch errors occur, and ends only when told to stop, at which point it is waited for.",
 ["histories","schedules"],"every sequence of file events and watch errors",nt,[MO],[("event loop",MO)])
# --- properties this family cannot decide here
p("C60","An upload interrupted by a crash completes when it is run again",
 "If the daemon crashes at any point while processing an upload, running the same upload again after restart ends with all of its packages imported and the repository indexed.",
 ["crash_points"],"a crash at any point of an upload job",nt,[TJ,RP],[("job recovery",ST)])
p("C61","Stored objects and emitted XML read back equal to what was written",
 "Every object stored in the database and every package description written to the index reads back equal to the value that was written.",
 ["inputs"],"every object value","A few fixtures are parsed; nothing is written and read back.",[db+"transcoder.go",RI],[("gob and xml codecs",db+"transcoder.go")])
p("C62","Acknowledged changes survive power loss",
 "Once a request or job is acknowledged, its effect on databases and files survives a loss of power.",
 ["crash_points"],"a power loss at any time",nt,[LV,UT],[("leveldb write options",LV)])
p("C63","Queued jobs start and finish within bounded time",
 "Every queued job is started within a bounded time of a worker being free, whatever the load.",
 ["schedules"],"every load and schedule",nt,[WK],[("polling timer",WK)])
p("C64","Applying a delta to the old package yields the new package",
 "Applying a produced delta to an installation of the old package gives exactly the files of the new package.",
 ["inputs"],"every pair of packages",nt,[eo+"delta.go"],[("hash difference",eo+"delta.go")])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+"\n")
print(len(P))
