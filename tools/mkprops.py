#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so statement edits stay reviewable)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
        state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],
        observe_at=observe or [],hook_needed=hook)))
REPO="src/ferryd/core/repo.go"; POOL="src/ferryd/core/pool.go"; IDX="src/ferryd/core/repo_index.go"
API="src/ferryd/core/api.go"; UTIL="src/ferryd/core/util.go"; STORE="src/ferryd/jobs/store.go"
WORK="src/ferryd/jobs/worker.go"; PROC="src/ferryd/jobs/processor.go"; LDB="src/libdb/leveldb.go"
poolstate=[("pool entry","one stored package or delta file and its reference count",POOL)]
repostate=[("repo entry","per package name: available files, published tip, deltas",REPO)]
OBS=["list of repositories and pool items as the daemon reports them","package listing of a repository","files under pool/ and repo/","published eopkg-index.xml"]

p("C01","Pool reference counts equal the number of repositories using each item",
 "After every completed repository operation, the pool lists exactly the packages and deltas that at least one repository contains, and each one's reference count equals the number of repositories that contain it. Operations that fail or change nothing leave the counts as consistent as they were.",
 ["histories"],"every sequence of create, delete, import, clone, pull, copy, remove, trim and delta operations over several repositories sharing packages",
 "existing tests add packages to one repository once; counts only go wrong over histories that share, drop and re-add items across repositories",
 [POOL,REPO],[("reference counting",POOL),("per-repository bookkeeping",REPO)],poolstate+repostate,OBS)
p("C02","Every listed package file is present, intact and freed only when unused",
 "After every completed operation, each package or delta a repository contains is present in that repository's tree and in the pool with exactly the bytes that were imported, both being one shared copy on disk. When the last repository drops an item its files are gone from disk, and no file of a dropped item is left in either tree.",
 ["histories"],"every sequence of repository operations, including re-adding, sharing and dropping the same items in different orders",
 "tests never drop shared packages, so truncation, premature deletion, orphans and duplicate storage are never observed",
 [POOL,REPO,UTIL],[("hard-link or copy into place",UTIL),("removal on last release",POOL),("removal of empty parents",UTIL)],poolstate,OBS)
p("C03","The published version is always the highest available release",
 "For every package name in every repository, the published version is one of the available files and no available file of that name has a higher release number, compared as numbers. A package name with no files left is not listed at all.",
 ["histories"],"every order of adding, removing, trimming, cloning and pulling releases, including numerically but not lexicographically ordered releases and duplicate releases",
 "tests never have two releases of one package in a repository",
 [REPO],[("tip selection on insert",REPO),("tip recomputation on removal",REPO)],repostate,OBS)
p("C04","The index lists exactly the published, non-obsolete packages correctly",
 "After any indexing operation the published index of a repository contains exactly one entry per package name, for its published version, in sorted order, except names the distribution file marks obsolete (and their -dbginfo companions); each entry has the package's own metadata, location, size and SHA-1, and the deltas leading to that release. The distribution, components and groups asset data of that repository are included as they are on disk at that time.",
 ["histories","inputs"],"every history of operations followed by an index, with and without asset files and obsoletes, over packages with different metadata shapes",
 "no test builds an index; content depends on the whole history of the repository",
 [IDX,API],[("index emission",IDX)],repostate,OBS)
p("C05","Compressed indexes and checksum files always describe the same index",
 "Whenever an operation that indexes a repository succeeds, the .xz and .zst files decompress to exactly the published index, each checksum file holds the digest of the file it is named after, and no temporary index files remain. Each operation that changes a repository's contents and succeeds leaves its index current, unless the caller asked to skip indexing, in which case the index is untouched.",
 ["histories","configurations"],"every history of successful operations, over the real compressors",
 "no test runs indexing",[IDX,API,"src/libeopkg/util.go"],[("index, compress, digest, rename",IDX),("index after each mutation",API)],repostate,OBS)
p("C06","Publishing an index is crash- and failure-atomic per file and self-healing",
 "If indexing is interrupted by a crash or a failing step at any point, every published index file is either the complete old or the complete new version, never partial or missing. After a failure that is not a crash no temporary files remain, and in either case the next indexing of that repository succeeds and publishes a consistent set.",
 ["crash_points","fault_sequences"],"every crash point (including partial writes) and every single failing filesystem or compressor step of an index run, on a fresh and on an already indexed repository",
 "tests never crash or fail a step",[IDX,UTIL],[("write to .new then rename",IDX),("cleanup on error",IDX)],None,["published index files after restart"])
p("C07","Cloning a repository reproduces its contents without disturbing the source",
 "A full clone has exactly the source's packages, published versions and deltas; a tip clone has exactly the source's published versions; both get the source's asset files and a current index, and the source is unchanged. Cloning from a missing repository or onto an existing name is refused and changes nothing.",
 ["histories"],"every reachable source repository, full and tip clones, existing, missing and deleted targets",
 "no test clones",[REPO,API],[("clone",REPO)],repostate,OBS)
p("C08","Pulling brings in exactly the newer or missing tips and never removes",
 "A successful pull adds to the target exactly the source's published versions of names that are missing from the target or have a higher release than the target's, reports exactly those names as changed, copies the asset files and leaves everything else in both repositories alone. If the target is ahead of the source for some name the pull is refused without changing any package in the target.",
 ["histories"],"every pair of reachable source and target repositories, including diverged ones",
 "no test pulls",[REPO,API],[("pull",REPO)],repostate,OBS)
p("C09","Copy and removal by source affect exactly the matching packages",
 "Copying or removing by source name and release affects exactly the packages whose source has that name and whose release matches (all releases when none is given), leaving every other package of every repository alone. When nothing matches the operation fails and changes nothing.",
 ["histories","inputs"],"every reachable repository pair, matching and non-matching sources and releases, sources with several packages",
 "no test copies or removes by source",[REPO,API],[("source matching",REPO)],repostate,OBS)
p("C10","Trimming keeps exactly the newest releases of every package",
 "Trimming a repository to N leaves, for every package name, its N highest releases (all if fewer) and never removes the published version, and affects no other repository. A limit below one is refused and changes nothing.",
 ["histories","inputs"],"every reachable repository and every limit around the number of available releases",
 "no test trims",[REPO,"src/libeopkg/main.go"],[("trim",REPO)],repostate,OBS)
p("C11","Trimming obsoletes removes exactly the obsolete packages",
 "Trimming obsoletes removes every version of every package the repository's distribution file marks obsolete, together with their -dbginfo companions, and nothing else. Without a distribution file it is refused and changes nothing.",
 ["histories","inputs"],"every reachable repository with every choice of obsoleted names, multiple versions and -dbginfo companions",
 "no test trims obsoletes",[REPO,"src/libeopkg/distribution.go"],[("obsolete trim",REPO)],repostate,OBS)
p("C12","Repositories are created once, deleted completely and isolated from each other",
 "A created repository starts empty and indexed, creating an existing name is refused without effect, and a deleted one disappears with all its records and directories so that the name can be created again empty. No operation on one repository changes the contents or published files of any other repository, whatever their names.",
 ["histories","inputs"],"every interleaving of create and delete with content operations over repositories whose names are prefixes of each other",
 "tests create one repository; isolation and re-creation need histories",
 [REPO,API,LDB],[("create",REPO),("delete",REPO)],repostate,OBS)
p("C13","Uploads are imported only when the whole payload verifies",
 "An upload manifest changes a repository only if its header is valid, it names an existing target repository, and every listed file is a readable package present in the upload directory with the stated SHA-256. After a successful import exactly the listed files and the manifest are removed from the upload directory; when one of these conditions fails they are all left in place and the repository is unchanged.",
 ["inputs","histories"],"every combination of header, target, file list and payload state (missing, altered, duplicated, escaping, wrong type)",
 "the test parses one valid manifest",["src/ferryd/core/transit_manifest.go","src/ferryd/jobs/transit_job.go"],[("manifest validation","src/ferryd/core/transit_manifest.go"),("transit job","src/ferryd/jobs/transit_job.go")],None,["upload directory","repository contents"])
p("C14","An uploaded package must be strictly newer than the published one",
 "An upload is accepted for a package name only if the repository does not have that name or the uploaded release is higher than the published release; otherwise the upload fails and the published version is unaffected. A plain import has no such restriction.",
 ["histories","inputs"],"every reachable repository and every older, equal, newer and re-uploaded release",
 "no test uploads twice",[REPO],[("strict add",REPO)],repostate,OBS)
p("C15","The job queue is FIFO and hands each job out exactly once",
 "Jobs of a queue are handed out in the order in which they were enqueued, each to exactly one worker, and no enqueued job is lost, duplicated or overwritten, under any concurrency of producers and workers. A job's type and parameters come out as they went in.",
 ["schedules","histories"],"every interleaving of concurrent enqueues, claims and completions at synchronisation and database steps, and every sequence of them",
 "jobs have no tests at all",[STORE,LDB],[("sequence keys",LDB),("claim under mutex",STORE)],[("queue bucket","pending and claimed jobs",STORE)],["jobs claimed by workers","status listing"])
p("C16","Accepted jobs survive a crash and are never silently lost",
 "Once enqueueing has completed, a job is after any crash either still queued or recorded in the job history; a job that was running at the crash is queued again on restart and is handed out before later ones. A finished job that has been retired is never run again.",
 ["crash_points","histories"],"every crash point in every short history of enqueue, claim, complete and restart",
 "no test restarts the store",[STORE],[("unclaim on start",STORE),("retire",STORE)],[("queue bucket","pending and claimed jobs",STORE)],["status listing after restart"])
p("C17","Job history keeps exactly the most recent outcomes",
 "Each finished job is recorded once, as completed or as failed with its error and with its own description and ordered times, and each list keeps the most recent 100. Resetting a list empties only that list, and later jobs are recorded again.",
 ["histories"],"every history length around the capacity boundaries, mixtures of success and failure, resets and restarts at every position",
 "no tests; wrap-around needs over 100 jobs",[STORE],[("ring of records",STORE)],[("history ring","last outcomes and write position",STORE)],["status listing"])
p("C18","Sequential jobs run one at a time, in order, and shutdown waits for them",
 "Sequential jobs are executed strictly one after another in queue order, a failing job does not stop later ones, and shutdown returns only after the running job has finished and been recorded. Jobs not started before shutdown stay queued for the next start, and shutdown always terminates.",
 ["schedules"],"every interleaving of workers, producers, timers and shutdown up to the preemption bound",
 "no test starts the processor",[WORK,PROC],[("worker loop",WORK),("close and wait",PROC)],None,["order and overlap of executed jobs","queue after shutdown"])
p("C19","Database buckets are isolated from each other",
 "Reading, listing, numbering, writing or deleting in one bucket never sees or affects records of any other bucket or of nested buckets, including buckets whose names are prefixes of each other. Within a bucket, a read returns the last committed value of that key.",
 ["histories","inputs"],"every short sequence of operations over nested buckets and keys with colliding, prefixed and binary names",
 "libdb has no tests",[LDB],[("bucket key prefixes",LDB)],None,["database interface"])
p("C20","Database updates are all-or-nothing, also across crashes",
 "A database update whose function fails changes nothing, one that succeeds applies all its writes, and after a process crash at any point of its storage writes a reopened database holds either all or none of each update and everything acknowledged before. Reads by others never see part of an update.",
 ["crash_points","schedules"],"every prefix, including torn records, of the storage writes of every short update history",
 "libdb has no tests",[LDB],[("write batch",LDB)],None,["database interface after reopening"])
p("C21","Index text escaping is lossless and independent of write boundaries",
 "However the text is split into writes, the bytes produced are the same as for one single write, valid UTF-8 text without special characters (non-ASCII symbols, separators and control or format characters) passes through unchanged, and every special character is replaced by the numeric reference of that same character. No byte of valid input is lost, duplicated or corrupted.",
 ["inputs"],"every split into writes of every short string over an alphabet with 1 to 4 byte, escaped, plain and invalid sequences",
 "the test writes one ASCII-heavy string in one piece",["src/ferryd/core/escape.go"],[("escaping writer","src/ferryd/core/escape.go")],None,["index text"])
p("C22","Malformed inputs are rejected and never bring the daemon down",
 "A malformed package, upload manifest, asset file or queued job (one of an unknown type or with wrong parameters) yields an error for that operation, with all repositories left consistent and usable, and never a panic or a hang. Package metadata that would place files outside the pool and repository trees is rejected.",
 ["inputs","fault_sequences"],"every omission, duplication, corruption or hostile value of each element of package metadata and of the other input files, up to two at a time",
 "tests use well-formed inputs only",["src/libeopkg/package.go","src/libeopkg/metadata.go","src/libeopkg/main.go",REPO],[("metadata reading","src/libeopkg/package.go")],None,["operation result","repository state"])
p("C23","A delta package carries exactly what changed",
 "A produced delta contains every non-tarball member of the new package unchanged and a tarball with exactly those entries of the new package whose content hash the old package lacks (directories always included), byte for byte. Deltas are produced only between a lower and a higher release of the same name, distribution release and architecture, pointless deltas are refused, and no working files are left behind.",
 ["inputs"],"every pair of small file sets (shared, moved, added, removed, changed files, directories, links) and every relation of names, releases and architectures",
 "the test makes one delta and does not look inside",["src/libeopkg/delta.go","src/libeopkg/util.go",UTIL],[("delta producer","src/libeopkg/delta.go")],None,["delta file contents"])
p("C24","At most one daemon owns a base directory at any time",
 "No interleaving of starting, stopping and crashing daemons on one base directory lets two of them own it at once, and a daemon does not give up ownership before it has finished its work there. After the owner has stopped or died, a new daemon can start.",
 ["schedules","crash_points"],"every interleaving at system-call granularity of up to three contenders starting, stopping and dying",
 "the lock file has no tests",["src/ferryd/lockfile.go","src/ferryd/server.go"],[("lock file","src/ferryd/lockfile.go"),("shutdown order","src/ferryd/server.go")],None,["which contenders believe to own the lock"])
p("C25","A client request results in exactly the requested operation",
 "Every client request for a repository operation that is accepted enqueues exactly one job, and running that job has exactly the effect of the requested operation with the requested arguments, whatever characters these contain; listings and status return what the daemon holds. A request that is refused, because its body cannot be decoded, no such request exists or the job cannot be stored, enqueues nothing and the client is told.",
 ["inputs","histories"],"every request type with every combination of argument values from a small hostile domain, against the directly invoked operation",
 "no test crosses the client, server and job layers",["src/libferry/main.go","src/ferryd/handlers.go","src/ferryd/jobs/main.go"],[("request encoding","src/libferry/main.go"),("handlers","src/ferryd/handlers.go"),("job parameters","src/ferryd/jobs")],None,["repository state after the job ran","listings"])
p("C26","Status reporting is always available and loses no job",
 "A status request succeeds whatever jobs are queued and lists every pending, running and recorded job once, in any interleaving with enqueueing, execution and resets. A job accepted before a status request and neither completed nor reset appears in it as current.",
 ["schedules","histories","inputs"],"every interleaving of status requests with producers, workers and resets, and every job type and parameter shape in the queue",
 "no tests of status",[STORE,"src/ferryd/handlers.go"],[("active and past job listing",STORE)],None,["status listing"])
p("C27","All filesystem effects stay inside the base directory",
 "Whatever repository ids, package names, manifests and job parameters a client or uploader supplies, the daemon creates, changes or removes nothing outside its base directory. Inside it, an operation touches only the directories of the repositories it names, the pool, and the upload it consumes.",
 ["inputs","histories"],"every operation with every id and path from a hostile alphabet (empty, dot, dot-dot, separators, absolute, nested)",
 "tests use benign names only",[REPO,API,"src/ferryd/core/transit_manifest.go","src/libeopkg/package.go"],[("path construction",REPO)],None,["recorded filesystem effects"])
p("C28","A crash in the middle of any operation never corrupts the repositories",
 "After a crash at any point of any repository operation and a restart, every package a repository lists has its intact file and pool entry, counts are exact, other repositories are unaffected and every operation on the repositories still works. Running the interrupted import, pull, trim, upload or index again completes it with the same result as without the crash.",
 ["crash_points"],"every crash point, including partial writes, of every operation from representative states, followed by restart and retry",
 "tests never crash",[REPO,POOL,UTIL],[("order of file and record updates",REPO)],poolstate+repostate,OBS)
p("C29","Restarting the daemon is transparent",
 "Closing and reopening the daemon's stores at any point between operations changes nothing observable, and every later operation behaves as without the restart. Opening existing data never alters repositories, pool, uploads or job history.",
 ["histories"],"a restart inserted at every position of every operation sequence",
 "tests never reopen",[ "src/ferryd/core/manager.go",REPO,STORE],[("open and init","src/ferryd/core/manager.go")],None,OBS)
p("C30","Every completed manifest upload is queued exactly once and nothing else is",
 "While the daemon is watching, each manifest file that is written and closed in, or moved into, the upload directory is queued for processing once per such completion, in order, if it is still there, and no other file, directory or partial upload is. Errors of the watcher do not end this. At shutdown, which always terminates, the queue holds the completions up to some moment.",
 ["schedules","histories"],"every sequence of short upload event histories and every interleaving with shutdown",
 "the monitor has no tests",["src/ferryd/monitor.go"],[("event filter","src/ferryd/monitor.go")],None,["queued jobs"])
p("C31","Deltas stay consistent with the packages they connect",
 "A repository lists a delta only while both packages it connects were available when it was added, removing either of them from the repository removes the delta, and the index offers for a package exactly the deltas leading to its published release with right origin, size and hash. A delta recorded as pointless is remembered, and re-adding or re-referencing a known delta changes nothing.",
 ["histories"],"every history of delta creation, inclusion, referencing, removal, trimming, cloning and indexing",
 "no test includes a delta in a repository",[REPO,POOL,IDX,"src/ferryd/jobs/delta.go"],[("delta bookkeeping",REPO),("skip records",POOL)],repostate,OBS)
p("C32","Concurrent operations on one repository lose no update",
 "Concurrent imports into one repository, together with indexing and listing, end in the same state as some sequential order of them, and every index published meanwhile lists only packages completely present in that repository. No interleaving deadlocks.",
 ["schedules"],"every interleaving, up to the preemption bound, of concurrent imports, indexing and listing at lock, database and filesystem steps",
 "tests are single threaded",[REPO,IDX],[("insert lock",REPO),("index lock",IDX)],repostate,OBS)
p("C33","Each publication purges exactly the listed files of its repository from the CDN",
 "With CDN credentials and a zone configured and a list for the repository in /etc/ferryd, every operation that publishes the index of a repository then purges exactly the non-empty lines of that repository's list from that zone, only once the complete new index is in place. Otherwise the CDN is not contacted. A purge that fails is reported as failure and leaves what was published; no answer of the CDN ends the daemon.",
 ["inputs","configurations","fault_sequences"],"every publishing and non-publishing operation, list, combination of settings and answer, and every failing step of publishing",
 "tests contact no CDN and publish nothing",["src/ferryd/core/purge_cloudflare.go",IDX],[("purge request","src/ferryd/core/purge_cloudflare.go"),("call after the renames",IDX)],None,["requests made to the CDN","published index files"])
p("C34","Job reports tell what was asked, when it ran and how it ended",
 "Every accepted request has one job report whose description names the operation and its repositories, source, release or limit; it carries the time of the request, the times its execution began and ended, in that order and around all its effects, and the operation's own error exactly if that failed. The record is the same after a restart, and a job whose execution was cut off counts as waiting until it runs again. ferryctl status shows the number of failed, active and completed jobs and, ordered by the time of the request (newest failed and completed first, oldest active first), ten of each or all with --all, with their outcome, times, durations, description and error, and the daemon's version and uptime.",
 ["histories","crash_points","inputs"],"every history of two requests of every outcome, read before, during and after the execution and a restart, every kill point of single requests, and every small job list in every order with and without --all",
 "no test reads a job report or runs ferryctl",["src/ferryd/jobs/store.go","src/ferryd/jobs/worker.go","src/libferry/types.go","src/ferryctl/cmd/status.go"],[("records of outcomes","src/ferryd/jobs/store.go"),("times and descriptions","src/ferryd/jobs/worker.go"),("durations and order","src/libferry/types.go"),("display","src/ferryctl/cmd/status.go")],None,["status listing","output of ferryctl status"])
open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w").write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
print(len(P))
