// The properties and their checks: the single source of properties.jsonl and MANIFEST.json (node tools/gen.mjs).
export const P = [];
const p = (id, title, statement, over, text, why, files, mechanism, level, technique, note, extra = {}) => P.push({ id, title, statement, over, text, why, files, mechanism, level, technique, note, ...extra });
const MC = 'model_checking', FE = 'fault_enumeration', EX = 'exploration';

p('C01', 'The code graph equals its specification after any sequence of operations',
	'After any sequence of storage operations (register/remove repo, upsert, re-index or delete entities, add/delete/promote relations, unresolved references, document summaries, cached explorations, embeddings) every read answers exactly as an abstract graph to which the same operations were applied would. In particular there are no dangling or one-directional edges, no stale or missing index entries, no orphaned summaries, vectors or unresolved references, and a rejected operation changes nothing.',
	['histories', 'inputs'], 'all sequences of up to 3 (quick) or 4+ (thorough) operations from a 48-operation alphabet, from four starting graphs',
	'Unit tests run a few hand-picked sequences; index, mirror and cascade bugs need a particular order of operations on shared rows.',
	['src/db/entities.ts', 'src/db/relations.ts', 'src/db/repos.ts', 'src/db/doc-summaries.ts', 'src/db/exploration-cache.ts', 'src/db/graph/store.ts', 'src/db/graph/edges.ts', 'src/db/graph/keys.ts', 'src/db/graph/codec.ts', 'src/db/search.ts'],
	[{ name: 'write transactions with cascading deletes and mirrored indexes', where: 'src/db/entities.ts, src/db/relations.ts' }],
	MC, 'explicit-state BFS using the real store as the transition function, lock-stepped with an abstract specification',
	'Exhaustive within the alphabet and depth; real LMDB and real code, vector store replaced by an in-memory table of the same contract.');

p('C03', 'Repo registration is strict, isolated and completely undone by removal',
	'A path is accepted for registration exactly when it is a non-empty absolute path that does not normalise to a system root, and storing data for an unregistered repo is refused. Operations on one repo never change or reveal data of another (including one whose path is a prefix), removing a repo removes everything stored for it in every table, and empty or unknown paths remove nothing. The repo containing a directory is the longest registered ancestor at a path-segment boundary.',
	['histories', 'inputs'], 'all operation sequences up to depth 4 (quick) over two prefix-sharing repos; all paths of up to 4 segments from a 9-segment alphabet; all registered subsets x directories',
	'Tests use one repo or unrelated paths; leaks show only with shared prefixes, shared names, or reserved rows.',
	['src/db/repos.ts', 'src/db/entities.ts', 'src/db/relations.ts', 'src/db/conversations.ts', 'src/db/exploration-cache.ts', 'src/db/doc-summaries.ts'],
	[{ name: 'validateRepoPathShape, strict repo-id lookup, removeRepo cascade, repoContainingCwd', where: 'src/db/repos.ts' }],
	MC, 'explicit-state BFS of the real store plus exhaustive path enumeration against an independent normaliser',
	'Exhaustive within bounds; vector store replaced by an in-memory table.');

p('C04', 'A failing storage operation leaves no partial result and can be repeated',
	'When a storage operation fails at any of its internal writes, a single-transaction operation leaves the graph exactly as it was, and any operation leaves it referentially consistent; the failure is reported to the caller. Repeating the operation after a failure, or after the process died between its transactions, gives the result of an undisturbed run. An operation submitted concurrently with a failing one keeps its own complete effect.',
	['fault_sequences', 'crash_points', 'schedules'], 'every operation in every state up to depth 2 x every internal write, transaction boundary and vector-store call failing; all ordered pairs of 19 concurrent operations with the first failing',
	'Tests do not inject failures inside transactions; the store library commits what a throwing callback wrote unless used in one particular way.',
	['src/db/graph/store.ts', 'src/db/entities.ts', 'src/db/relations.ts', 'src/db/repos.ts', 'src/db/conversations.ts'],
	[{ name: 'withWriteTxn', where: 'src/db/graph/store.ts' }],
	FE, 'exhaustive fault injection at every write/transaction of the real store over all explored states', 'Every injected fault is enumerated; a transaction is assumed atomic on disk.');

p('C05', 'Schema migration preserves the graph and survives interruption at any write',
	'Opening a store written by any older schema version yields the same graph in the current layout: the same repos, entities, edges and references, complete indexes, module entities under the shared rows, and no trace of repos without an absolute path or of anything attached to them. A migration interrupted or failing at any write leaves the store exactly at a version boundary and can be resumed to the same result. A newer or unreachable version is refused without touching the data.',
	['crash_points', 'inputs'], 'all 256 combinations of graph components x versions 1..current x three legacy shapes; failure at every write; every subset of migration steps x start x target x failing step',
	'Tests migrate one or two hand-made graphs and never fail in the middle.',
	['src/db/graph/migrations.ts', 'src/db/graph/store.ts'],
	[{ name: 'runMigrations: one child transaction per step including the version bump', where: 'src/db/graph/migrations.ts' }],
	FE, 'exhaustive enumeration of stored graphs, versions and failing writes on the real migrations', 'Oracle: the graph built directly at the current version by the public API; transactions assumed atomic on disk.');

p('C06', 'Compaction and backup never lose or mix data, whatever interrupts them',
	'At every instant during compaction the live store path holds a complete store with all its content, so a crash or I/O error at any step loses nothing, and compaction can be repeated and then leaves no side files. A backup that reports success equals the store at that time; one that is interrupted leaves the previous snapshot or the new one, never a truncated graph file or a mixture of vector files of two snapshots, and never disturbs the live store. Leftovers of an earlier interrupted run change none of this.',
	['crash_points', 'fault_sequences'], 'every mutating file-system step x {death before, torn, I/O error} x every combination of leftovers x two store sizes / previous-backup shapes',
	'Tests run the undisturbed path only.',
	['src/db/graph/store.ts', 'src/daemon/backup.ts'],
	[{ name: 'compactGraphStore, backupAll: write aside, then rename', where: 'src/db/graph/store.ts, src/daemon/backup.ts' }],
	FE, 'exhaustive crash-point and I/O-error enumeration on the real code, verified by reopening', 'Rename and link assumed atomic; native copy modelled as complete or truncated.');

p('C07', 'Conversation store: sessions and turns read back exactly as written',
	'After every history of conversation operations every reader (session by id, lists by repo and status, turns of a session, all turns, statistics, similarity search, seeding) returns exactly the sessions and turns that the history leaves, field by field, each in its own session and repo only, in its documented order, and deleted, discarded or expired ones nowhere; the by-repo index and the vectors never retain or lose an entry. Pruning removes exactly the expired sessions and, per repo, those beyond the newest twenty. Calls that overlap leave what some order of running them one after another would leave.',
	['histories', 'schedules'], '48 operations over three sessions (with prefix, quote and colon ids) in two repos from three prepared states to depth 2 (thorough 4); every prune boundary; all pairs of 17 concurrent calls under every interleaving of their transactions',
	'Tests write and read one or two sessions; index leaks need re-saves under another repo, prefix ids or overlapping calls.',
	['src/db/conversations.ts', 'src/db/lance/turn-vec.ts', 'src/db/lance/session-vec.ts'],
	[{ name: 'sessions, turns, by-repo index, prune, seed', where: 'src/db/conversations.ts' }, { name: 'turn and session vectors', where: 'src/db/lance/turn-vec.ts, src/db/lance/session-vec.ts' }],
	MC, 'explicit-state exploration of operation histories executed on the real store against an independent model; exhaustive interleavings of overlapping calls', 'Similarity by the vector store is exact search over small vectors; turns whose session record is gone keep an unspecified vector after a per-repo deletion.');
p('C08', 'Compaction rewrites conversations exactly as documented and loses nothing else',
	'One compaction run turns every rule-stating turn into a directive entry, which no later step or run removes except the directive cap (oldest first); it keeps hot turns, truncates warm ones, merges exactly the similar cold turns into one entry and the archived turns of each session into one summary, each in its own repo, listing all its sources and entities, and overwriting no other entry; beyond that it removes only what exceeds the cap (lowest tier and oldest first) or duplicates a newer entry of its tier, and it reports exactly these counts. A dry run announces the same and changes nothing, a restricted run leaves other repos alone, and vectors follow their entries. An interruption at any store operation loses no content, and turns saved or deleted while it runs stay saved or deleted.',
	['histories', 'inputs', 'crash_points', 'schedules'], 'every assignment of 17 turn contents to three (thorough four) slots x cap settings, run three times as time passes; every pair over two repos and none x embedder outcome; age and similarity boundaries; every interruption point; every interleaving with 5 concurrent operations',
	'Tests run single steps on a few turns; losses need particular combinations of tiers, slots, caps and earlier runs.',
	['src/db/compaction.ts', 'src/db/conversations.ts', 'src/db/directives.ts'],
	[{ name: 'compactConversations', where: 'src/db/compaction.ts' }, { name: 'addCompactedTurns, deleteTurnsByIds', where: 'src/db/conversations.ts' }, { name: 'directive detection and extraction', where: 'src/db/directives.ts' }],
	FE, 'exhaustive enumeration of turn histories, interruption points and interleavings on the real code against an independent account of each run', 'What counts as a rule is fixed by unambiguous phrases; the creation time of compacted entries is not specified.');
p('C09', 'Todo lists: owner-guarded, acyclic, cascading, and serial under concurrency',
	'Every todos RPC history acts as specified: only the current owner mutates a list and its items (system and other callers are refused with the documented error and nothing changes), status changes follow the legal transitions, parents stay acyclic and within the session, items keep the requested order however often a gap is reused, caps on lists, items and sizes hold, comments are edited and deleted by their author and acknowledged by the owning agent only, agents never see user-owned lists, deletion cascades without leaving orphans, and cleanup deletes exactly the lists matching its filters and refuses unscoped ones. Every successful mutation emits exactly one event per change carrying the state after it (before it, for deletions), so a subscriber applying them holds the same lists as a reader. Calls issued concurrently give results and a final state that some order of running them one after another would give.',
	['histories', 'schedules', 'inputs'], 'every RPC by every caller from five prepared states to depth 2 (thorough 5) with up to 3 lists, 3 items, 2 comments; all pairs (thorough: triples) of 25 concurrent calls under every interleaving of their write transactions; every cap at its boundary; 180 repeated insertions or moves into one gap',
	'Tests exercise the storage functions one call at a time; none covers the RPC guard combinations, event snapshots or overlapping calls.',
	['src/daemon/todos-rpc.ts', 'src/db/todos.ts', 'src/shared/todos.ts'],
	[{ name: 'todos.* RPC handlers', where: 'src/daemon/todos-rpc.ts' }, { name: 'list/item/comment storage and cascades', where: 'src/db/todos.ts' }, { name: 'transition tables and order keys', where: 'src/shared/todos.ts' }],
	MC, 'explicit-state exploration of RPC histories executed on the real handlers and LMDB store against an independent specification; stateless exploration of all interleavings of concurrent calls with a serialisability oracle', 'What a sub-list reports as its parent after the parent was deleted is not specified.');
p('C10', 'Graph traversal answers are exactly what the edges define',
	'For every graph, set of start nodes, direction, edge-kind filter, depth bound and visitor, breadth-first and depth-first traversal yield exactly the nodes reachable within the bound, each once and in breadth-first respectively depth-first order, not descending below nodes the visitor refuses. Closure, strongly connected components and unreachable-entity answers equal their set-theoretic definitions. Callers, callees, imports and the dependency closure of a repo follow only edges of their kind and direction and terminate on cycles.',
	['inputs'], 'every graph of up to 3 nodes with two edge kinds and up to 4 nodes with one, every start set, direction, filter and depth; every dependency graph over 4 repos',
	'Tests use a handful of small trees and one cycle; wrong results need particular shapes (diamonds with unequal depth, self loops, several roots).',
	['src/db/graph/traversal.ts', 'src/db/search.ts', 'src/db/relations.ts'],
	[{ name: 'bfs, dfs, transitiveClosure, scc, unreachable; resolveClosure', where: 'src/db/graph/traversal.ts, src/db/search.ts' }],
	MC, 'exhaustive enumeration of small graphs in the real store against set-theoretic definitions', 'Complete for all graphs within the size bounds.');

p('C02', 'Indexing converges to the source tree, whatever happened in between',
	'Once all file events are processed and the settle pass has run, the graph of a repository holds exactly the definitions of its current source files, every import, call and inheritance reference between them that the sources determine, and nothing of deleted, renamed, ignored or generated files. This does not depend on the order in which files were created, changed or deleted, on how events were batched, or on how often the settle pass ran in between. It also holds after changes made while the daemon was down, once a restart or full index completes, after a full index was interrupted at any point, and for every repo separately when repos are nested or share a path prefix.',
	['histories', 'schedules', 'crash_points'], 'every history of up to 3 (quick) or 4 file changes over three mutually importing files (two languages) x every batching/settling; every pair of offline changes x six kinds of restart; every interruption point of a full index',
	'Tests index one tree and apply one edit; lost cross-file references need a particular order of create/delete/re-create across files.',
	['src/indexer/index.ts', 'src/indexer/cross-file-resolver.ts', 'src/indexer/resolver.ts', 'src/daemon/queue.ts', 'src/db/relations.ts', 'src/db/entities.ts'],
	[{ name: 'IndexerService: per-file pipeline, settle pass, full index, startup delta; cross-file resolver', where: 'src/indexer/index.ts, src/indexer/cross-file-resolver.ts' }],
	MC, 'exhaustive enumeration of change/delivery/restart histories on the real indexer, queue and store against an independent linker', 'Small trees of structured sources; the watcher back end and embedding models are outside.');

p('C11', 'Every index job and file event is eventually processed, one at a time',
	'Every job accepted by the index queue is processed in arrival order, one at a time, except that it may be covered by an equivalent pending job: at most one pending full pass per repo, one event per path (the latest), one configuration pass per scope (a reindex replacing a plain pass) and one summarisation per target. A failing job never stops the queue, and after stop the running job finishes and no other starts. Every file system event of a watched repo on an indexable file leads, after the debounce, to a job carrying the latest event of that path, repos being watched exactly once until removed.',
	['histories', 'schedules'], 'every sequence of up to 5 (quick) or 6 queue operations over 16 jobs of all kinds, drained to the end; every interleaving of up to 4 or 5 event deliveries, timer steps and job completions over two watched repos',
	'Tests enqueue a few jobs; lost wake-ups, wrong de-duplication and wrong order need particular sequences.',
	['src/daemon/queue.ts', 'src/indexer/watcher.ts', 'src/indexer/index.ts'],
	[{ name: 'IndexQueue.enqueue/start/stop', where: 'src/daemon/queue.ts' }, { name: 'Watcher debounce, IndexerService event handler', where: 'src/indexer/watcher.ts, src/indexer/index.ts' }],
	MC, 'explicit-state model of the queue, every transition executed on the real queue; exhaustive event interleavings on the real watcher', 'The native watch back end is replaced by a stub that delivers chosen events.');

p('C12', 'Every daemon request gets exactly one correct answer, whatever the framing',
	'Requests and responses survive any splitting of the byte stream into chunks, including inside multi-byte characters, and several requests in one chunk. Every request line, also malformed, unknown or failing ones, gets exactly one response carrying its own id and its own result or a non-empty error, under every completion order and on its own connection only; a stream delivers its frames in order under its id, reports a failure as one error frame, and is aborted when its client goes away. A client call always settles: with the answer, the daemon\'s error, or an error when the daemon is absent or the connection ends early; the list of attached clients follows connects, valid self-identification and disconnects exactly.',
	['inputs', 'schedules', 'fault_sequences'], 'every cut of 35 wire texts into up to three chunks and into bytes; all pairs (selected triples) of 18 request kinds x connection x completion order x hang-up; all stream scripts x endings x hang-ups; all answer cuts, frame scripts and aborts at the clients',
	'Tests send one whole request per chunk and never vary completion order or split characters.',
	['src/daemon/server.ts', 'src/cli/client.ts', 'src/mcp/daemon-stream.ts'],
	[{ name: 'IpcServer', where: 'src/daemon/server.ts' }, { name: 'rpc, unaryRpc, runWorkflowStream', where: 'src/cli/client.ts, src/mcp/daemon-stream.ts' }],
	MC, 'exhaustive enumeration of chunkings, completion orders and disconnects on the real server and clients over in-memory sockets', 'node:net replaced by socket pairs delivered by the checker.');

p('C14', 'Downstream work starts only on approved, unrejected, current artifacts',
	'A workflow stage is admitted only if every artifact it builds on exists, its latest decision is an approval, and it is not stale: an LLD against the effective HLD (unless acknowledged or standalone), a build\'s plan against its LLD; a stage always sees the effective HLD, and artifacts of other epics or stories never count. An approval is refused while HIGH or MED review findings are unresolved or an enforced code review blocks, unless overridden with a reason that is recorded; approving, rejecting, acknowledging, resolving findings and batch approval change exactly the decision they announce in exactly the artifacts they name, and report every refusal with a reason. The chain report and the staleness scan agree with the gates.',
	['inputs', 'histories'], 'every combination of decision states, anchors, amendments and acknowledgements of the artifacts of an epic; every approval context (decision x up to two findings x resolution x override x code review x enforcement x target form); every sequence of up to 3 (quick) or 4 finding resolutions; every batch of five artifacts',
	'Tests cover single gates with one or two artifact states each.',
	['src/workflow/gates.ts', 'src/workflow/chain.ts', 'src/workflow/review/resolve.ts', 'src/workflow/code-review/gate.ts', 'src/workflow/runners/build/admission.ts', 'src/workflow/amendments/staleness.ts'],
	[{ name: 'requireApproved*, readPlanUpstream, approveWorkflowTarget, rejectArtifactByJsonPath', where: 'src/workflow/gates.ts' }, { name: 'admitBuild, admitStandaloneBuild', where: 'src/workflow/runners/build/admission.ts' }, { name: 'buildChainReport', where: 'src/workflow/chain.ts' }],
	MC, 'explicit enumeration of all artifact states within bounds, each executed on the real gates against a decision table', 'Artifacts are written by one process at a time.');

p('C15', 'Amendments apply exactly, in approval order, and never break the HLD',
	'The effective HLD is the base with every approved amendment applied in approval order, each exactly as its type specifies or refused with an error naming it, without changing its inputs; an amendment is approved only if it applies, so reading the effective HLD of an approved base never fails. Records get the next unused number, are proposed only as pending and decided at most once with a reason for rejection, and nothing but the decision ever changes; records of other epics, foreign and temporary files play no role. Every LLD produced against an earlier effective HLD, and no other, is stale.',
	['inputs', 'histories'], 'every amendment of all 11 types over small domains, every pair, and triples per pair of types; every life-cycle history of up to 6 (quick) or 7 operations over two epics with up to three amendments each',
	'Tests apply single amendments and one or two life-cycle paths.',
	['src/workflow/amendments/applier.ts', 'src/workflow/amendments/store.ts', 'src/workflow/amendments/effective.ts', 'src/workflow/amendments/staleness.ts', 'src/cli/services/workflow.ts'],
	[{ name: 'applyAmendments', where: 'src/workflow/amendments/applier.ts' }, { name: 'propose/approve/rejectAmendment, listApprovedAmendments', where: 'src/workflow/amendments/store.ts' }],
	MC, 'explicit-state model of the amendment life cycle, every transition executed on the real store and files; exhaustive applier enumeration against an independent specification', 'One process at a time; a re-run of the base HLD is outside.');

p('C16', 'Workflow runs execute their plan in order, resumably, and fail cleanly',
	'A run executes the steps of its plan strictly in order, one at a time, each once, giving every runner its parameters with each placeholder replaced by exactly the own value it names in an earlier output, and only the outputs of earlier steps of the same run. A pause hands out exactly what the runner asked and returns a state from which, directly, after being stored and reloaded, or more than once, the same answer leads to the same continuation; the plan and the state given are never changed. Every failure (an error or exception in run or finalize, an unresolvable placeholder, a missing runner, a state that does not fit its plan) ends as an error result naming the step, and no later step runs.',
	['inputs', 'histories', 'schedules'], 'every plan of up to 3 (thorough 4) steps over 16 runner behaviours and 14 parameter shapes x 3 ways of resuming; pairs of runs at the same time; every placeholder path of up to 4 segments over a value tree',
	'Tests run three or four fixed plans.',
	['src/workflow/executor.ts', 'src/workflow/types.ts'],
	[{ name: 'startRun, resumeRun, substitutePlaceholders', where: 'src/workflow/executor.ts' }],
	MC, 'exhaustive enumeration of plans and runner outcomes on the real executor against an independent interpreter', 'Runners are stand-ins; what real runners compute is outside.');
p('C17', 'Detached workflow runs report every event once and end exactly once',
	'A started run is visible at once; polling with the returned cursor yields every progress frame exactly once and in order, however polls, model answers, failures and aborts interleave. A run ends exactly once, as done with its artifact written, as error with a message, or as aborted; an ended run never changes its outcome, and a run aborted before its artifact was accepted stops asking its model and leaves no artifact. Running runs are never forgotten, and of the ended ones the oldest go first beyond 64; token progress adds up exactly.',
	['schedules', 'histories'], 'every sequence of up to 6 (thorough 9) answers, rejected artifacts, failures, polls and aborts for four plans with another run alongside; 36 retention patterns; token counts 0..70 x stage changes',
	'Tests abort a run once and never let it finish afterwards.',
	['src/daemon/workflow-run-registry.ts', 'src/daemon/workflow-rpc.ts'],
	[{ name: 'startWorkflowRun, pollWorkflowRun, abortWorkflowRun', where: 'src/daemon/workflow-run-registry.ts' }, { name: 'runWorkflowServerSide, makeTokenAccumulator', where: 'src/daemon/workflow-rpc.ts' }],
	MC, 'exhaustive enumeration of interleavings on the real registry and driver against a specification of the run', 'The model is a stand-in delivering chosen answers; the demonstration workflow is used.');
p('C19', 'An analyze plan runs each task once, in order, with exactly its inputs',
	'Executing a plan tree runs every task once and one at a time in list order, a planner task running its child plan between its own start and completion; each task receives exactly the outputs it consumes, latest value of each name, and a child plan sees none of its parent\'s. A task that fails (throws, no runtime, missing or surplus outputs, no child plan or report) fails alone: exactly the tasks consuming an unavailable output are skipped, everything else runs, and the final report is the last task\'s. Counts, reasons and start/completion events match what happened, a failing listener changes nothing, and whenever a task is reported complete its record is readable on disk under its own place in the tree.',
	['inputs', 'histories', 'crash_points'], 'all plans of 1-2 tasks over 7 outcomes and all input sets, 3 tasks over 5, 4 over 2, nested plans to depth 3 with missing and failed children, listener failure at every event, disk read at every event',
	'Tests run a few hand-made plans and read disk at the end.',
	['src/analyze/executor/walker.ts', 'src/analyze/executor/cache.ts'],
	[{ name: 'runExecutor', where: 'src/analyze/executor/walker.ts' }, { name: 'readTaskOutput', where: 'src/analyze/executor/cache.ts' }],
	EX, 'exhaustive enumeration of plan trees and outcomes on the real executor against a specification interpreter', 'Runtimes are stand-ins.');
p('C20', 'Accepted analyze plans satisfy every invariant, and valid plans are accepted',
	'The plan validator accepts a plan exactly when it satisfies all fifteen documented invariants (non-empty, ids in order, known templates of the right target and kind, valid params, declared outputs, inputs produced by earlier tasks, no nested task lists, one final aggregator, task-count band, reasons long enough, parent path only on child plans) and otherwise names one that is violated. Planning re-asks the model with its rejected plan and the violated invariant at most the configured number of times, never beyond the depth cap of the root scope, and stamps the caller\'s parent path; a failing child plan is recorded on its task without losing the rest of the tree. Every attempt, its feedback and every accepted plan is on disk at its own place.',
	['inputs', 'fault_sequences'], 'all plans of 1-2 tasks over 6 templates x 7 input sets and 3-4 tasks ending in an aggregator, every change and pair of changes of two valid plans, both edges of all bands, model scripts of up to 3 turns at three levels for all depth caps',
	'Tests check one example per invariant.',
	['src/analyze/planner/validate.ts', 'src/analyze/planner/driver.ts', 'src/analyze/planner/recursive.ts', 'src/analyze/planner/cache.ts'],
	[{ name: 'validatePlan', where: 'src/analyze/planner/validate.ts' }, { name: 'runRecursivePlanner', where: 'src/analyze/planner/recursive.ts' }],
	EX, 'exhaustive enumeration of plans and model scripts on the real validator and planner against independent definitions of the invariants', 'The model is a scripted stand-in.');
p('C21', 'Config reconcile loses nothing it does not own and rewrites atomically',
	'Reconciling a configuration document gives a document in which every catalogue option has a value of its declared type (a valid value is carried, an absent one filled with the default, a wrongly typed one replaced and its old value reported), every retired path is gone, every legacy key is moved to its new place unless that is taken, and every other key survives unchanged; the report says exactly what was done, the inputs are not modified, and a second pass changes nothing. Reconciling the file never throws and under any filesystem failure, crash or edit made meanwhile leaves either the previous content, the other edit, or the complete new document, never a partial one, never defaults over an unreadable or corrupt file, and no temporary file. Writing one value at a path changes that own property only, whatever the key names are.',
	['inputs', 'fault_sequences', 'crash_points'], 'about 270 k documents over a 4-key catalogue with 3 retired paths and 3 migrations; the shipped catalogue with every one and two deviations and every legacy shape; 40 initial file contents x every filesystem call x 7 faults or interfering edits; every write path of up to 3 segments over 9 key names',
	'Tests sample a few documents and one injected failure each.',
	['src/config/reconcile.ts', 'src/config/reconcile-io.ts', 'src/config/config-catalog.ts', 'src/config/write-path.ts'],
	[{ name: 'reconcileConfig', where: 'src/config/reconcile.ts' }, { name: 'reconcileConfigFile', where: 'src/config/reconcile-io.ts' }, { name: 'setConfigAtPath', where: 'src/config/write-path.ts' }],
	FE, 'exhaustive enumeration of documents against an independent specification, and of every fault, interfering edit and crash point on the real file rewrite', 'The file system is an in-memory stand-in passed through the published seam.');
p('C22', 'Each role runs on its configured model, critical ones never below the floor',
	'For every configuration document and every role and repository, the model a reasoning step runs on is the one the configuration names: the tier assigned to the role by the repository, else globally, else by the role taxonomy, raised to the repository\'s, else the global, else the built-in floor exactly when the role is critical, and then that tier\'s model from the repository, else globally, else the built-in one; invalid entries are ignored and a malformed document never breaks loading. The process or server a built provider reaches is that runner and model (an Ollama model id never reaches a command-line runner), the background summariser follows the cheap tier alone and ignores run contexts, and backend signals outside a run rank role, repository, explicit config, client, local. Run contexts (routing, sampling, client) are visible in their own run only, whatever concurrent runs do.',
	['inputs', 'schedules'], 'global scope: 27 tier tables x 6 x 6 tasks x 6 floors crossed with per-repository scopes of the same kinds; all roles x 256 assignments; 500 tier tables on built providers; 448 signal combinations; every interleaving of three runs with two suspension points over 50 context mixes',
	'Tests sample a handful of role and config combinations.',
	['src/config/analyze.ts', 'src/analyze/context/role-router.ts', 'src/analyze/context/shaper-provider.ts', 'src/config/core-floor-guard.ts', 'src/config/role-taxonomy.ts'],
	[{ name: 'resolveRole', where: 'src/analyze/context/role-router.ts' }, { name: 'applyCoreFloor', where: 'src/config/core-floor-guard.ts' }, { name: 'buildShaperProvider', where: 'src/analyze/context/shaper-provider.ts' }],
	EX, 'exhaustive enumeration of configurations on the real loader and router against a reading of the raw document, and of all interleavings of concurrent runs', 'Command-line runners are recorded at process creation; the local model server is a loopback stand-in. Tiers with an empty model id are left out: catalogue and loader disagree on their meaning.');
p('C23', 'The file tools do exactly what was asked, or nothing and say so',
	'Every file tool call (write, edit, multi-edit, move, copy, delete, mkdir, read, stat) on every tree either reports success and leaves exactly the requested result, or reports failure and leaves every file as it was (at most empty parent directories of the target are added): no call overwrites without being told to, follows a link it should remove or replace, moves or copies a directory into itself, leaves half of a multi-edit, or reports success on a malformed request. Edited text is inserted literally, an edit that is missing or not unique is refused, and bytes the tool cannot represent are refused rather than changed. When any one filesystem call fails, success is reported only for a complete result and no file of the user is lost (the source of a move, the destination it would replace); describing a call for approval changes nothing.',
	['inputs', 'fault_sequences'], '17 x 17 source and target paths over a tree with links, dangling links and a second device, all flags; every filesystem call of each failing with 2 (3) errors; all texts up to length 4 over {a,b,$,&} x 12 patterns x 7 replacements; all pairs of 62 edits on 20 texts; all windows of 7 texts',
	'Tests use one happy path and one missing-file case per tool.',
	['src/daemon/tools/builtins/file/move.ts', 'src/daemon/tools/builtins/file/edit.ts', 'src/daemon/tools/builtins/file/multi-edit.ts', 'src/daemon/tools/builtins/file/delete.ts', 'src/daemon/tools/builtins/file/copy.ts'],
	[{ name: 'fileMove', where: 'src/daemon/tools/builtins/file/move.ts' }, { name: 'fileEdit', where: 'src/daemon/tools/builtins/file/edit.ts' }, { name: 'fileMultiEdit', where: 'src/daemon/tools/builtins/file/multi-edit.ts' }],
	FE, 'exhaustive enumeration of tool calls on real trees against a specification, and of every failing filesystem call', 'The second device is simulated (renames across it fail with EXDEV). mkdirp:false for copies into missing parents is left open, and copying onto or from links too.');
p('C24', 'A context-building model can only run read-only tools',
	'Whatever names and arguments a model puts in its tool calls, the context builder\'s tool loop executes only tools of the read-only surface it offered: any other registered tool (file writes, shell, ssh, gh, cloud, cluster, package, network, mutating git), under its id or an alias, and any unknown name is answered with an error and never run. Every call gets exactly one answer, under its own id, in the next turn and in order; the loop stops after the configured number of turns, counts calls exactly, reports a failing model, and asks for the final bundle once. The offered tools themselves change nothing whatever their arguments: no file, index entry, ref or database row is written and no program is started by option-like, shell-like or SQL-like values, and database tools do not reach files outside the repository.',
	['inputs', 'histories'], 'every registered tool, alias and 20 unknown names in 4 script shapes; all scripts of up to 3 (4) turns over 11 turn shapes x 3 limits; every string parameter of every offered tool x 38 hostile values, pairs for git and search tools',
	'Tests pin the list of offered tools but not what the loop executes.',
	['src/analyze/context/driver.ts', 'src/analyze/context/tool-surface.ts', 'src/daemon/tools/executor.ts', 'src/daemon/tools/builtins/git/diff.ts', 'src/daemon/db/drivers/rdbms-common.ts'],
	[{ name: 'runShaperToolLoop', where: 'src/analyze/context/driver.ts' }, { name: 'getReadOnlyTools', where: 'src/analyze/context/tool-surface.ts' }],
	EX, 'exhaustive enumeration of model scripts on the real loop with recorded executions, and of hostile arguments of every offered tool on a real scratch repository and databases', 'Tools over remote databases, embeddings and the code graph run without their backends, so only their argument handling is explored.');
p('C25', 'CAMON counts every exchange once in every view and keeps no payload',
	'After any history of observed exchanges, recorded events, purges, restarts, heartbeats and clock advances, each exchange within the retention window appears exactly once, with the same agent, provider, model, tokens and UTC time, in every view (recent requests, per-day, per-agent and per-provider totals, sessions or 30-minute activity windows, overview, report, JSON and CSV export), nothing older survives a purge, and the addon shows as healthy exactly while its last heartbeat is at most 10 s old. A crash or failing statement leaves an exchange in all views or in none; no body, header, URL or encoding makes an exchange disappear, the flow is never changed, and no query string, credential, header or body text reaches the database or the logs. Traffic logs exist only for enabled agents, rotate at the configured size keeping the five newest rotated files in order, and a failing file operation neither reaches the proxy nor loses the exchange or older lines.',
	['histories', 'inputs', 'crash_points', 'fault_sequences'], 'all histories of up to 3 (4) of 17 operations; 5 windows x 9 offsets x 3 sub-second phases; every statement boundary and failing statement of 120 steps; 1000 bodies, URLs and headers; all sequences of 5 (6) log lines over 3 sizes x 5 limits x 5 prior file sets; every failing file call of a log write',
	'Tests record one event and rotate once.',
	['camon/src/camon/storage.py', 'camon/src/camon/addon_runtime.py', 'camon/src/camon/extract.py', 'camon/src/camon/reporting.py'],
	[{ name: 'Storage.record', where: 'camon/src/camon/storage.py' }, { name: 'CamonAddon.response', where: 'camon/src/camon/addon_runtime.py' }],
	FE, 'exhaustive enumeration of histories on the real storage and addon under a controlled clock against an independent ledger, of every crash image and failing SQL statement, and of every failing file call', 'mitmproxy is not installed: flows are stand-ins with its interface. Events of one session arrive in time order. Sqlite is taken to be atomic per transaction.');
p('C26', 'CAMON changes machine setup exactly as asked, reversibly, or not at all',
	'Registering the addon either ends with the known local service (and only that one) running CAMON\'s addon on 127.0.0.1 with every other setting kept and every replaced configuration still in a backup, or fails or refuses (wrong service, not bound to loopback alone, invalid document, missing runtime) leaving the configuration as it was; success is never reported while the service runs something else, and repeating it is harmless. Setting up an agent merges only the proxy variables into valid Claude settings, keeping all other content, permissions and links, or changes nothing, even when any file operation fails; launchers run exactly the chosen executable with its arguments unchanged behind the proxy. A managed restart only ever terminates the process CAMON itself started, never one that reused its number, leaves at most one running and refuses when unmanaged; attribution and detection follow the documented order and degrade to unknown on any failure.',
	['inputs', 'fault_sequences', 'histories'], '140 launch agents x 2 formats x 2 states x all sets of up to 2 (3) failing launchctl calls; 108 systemd configurations x failing systemctl calls; 20 settings documents x links x modes x every failing file call; 12 executable names x 6 agents really launched; 11 pid files x process states, all restart histories up to 5 (6); 19000 attribution situations',
	'Tests register one good plist and configure one agent.',
	['camon/src/camon/registration.py', 'camon/src/camon/setup.py', 'camon/src/camon/runtime.py', 'camon/src/camon/attribution.py'],
	[{ name: 'register_local_addon', where: 'camon/src/camon/registration.py' }, { name: 'setup_agent', where: 'camon/src/camon/setup.py' }, { name: 'restart_managed', where: 'camon/src/camon/runtime.py' }],
	FE, 'exhaustive enumeration of configurations, command failures, file failures and restart histories on the real code over stand-in service managers and process tables', 'launchctl, systemctl and the process table are stand-ins; a failure of the restoring commands themselves is not judged beyond the file.');
p('C28', 'A review judges every premise once, edits only what it may and records it',
	'A review of an artifact, run by the daemon or judged turn by turn by the client, records exactly one finding per extracted premise (premises sharing an id told apart, verdicts on unknown premises ignored, an unjudged or unrated premise counted MED, manual findings without edits), judged on evidence that is true of the source tree and complete up to its stated cut, with exact counts, the verdict block exactly while a HIGH or MED finding is present, and one review section listing all of them. Automatic edits and nothing else are applied, to every literal occurrence in the document and in the body\'s texts; other metadata and fields stay, and a new review is not settled by answers to an earlier one. A failing, cancelled or interrupted review, one whose artifact changed meanwhile, and a turn with an unknown, finished or premature token change nothing, whatever other conversations do.',
	['inputs', 'histories', 'fault_sequences', 'crash_points'], 'every verdict of 5 severities x 4 fixabilities x all lists of up to 2 (3) of 10 edits on both surfaces; all pairs (triples) of 7 verdicts x 3 artifact states x 3 second passes x 5 client orders; all lists of up to 3 of 8 premise wordings; 7 interferences at every model call; every failing, torn or last file operation; all sequences of 5 (6) of 9 turns over two conversations; 9 source trees x 8 patterns x 13 anchors',
	'Tests review one artifact with one fix and never interleave, fail or change anything during a review.',
	['src/workflow/review/run-artifact.ts', 'src/workflow/review/apply.ts', 'src/workflow/review/verify.ts', 'src/workflow/review/extract.ts', 'src/workflow/review/probe.ts', 'src/mcp/review-step/handler.ts'],
	[{ name: 'reviewArtifactFile', where: 'src/workflow/review/run-artifact.ts' }, { name: 'handleReviewStep', where: 'src/mcp/review-step/handler.ts' }, { name: 'gatherEvidence', where: 'src/workflow/review/probe.ts' }],
	FE, 'exhaustive enumeration of model answers, turn sequences, interferences and file failures on the real code against an independent account of the review', 'The model is a scripted provider. Two verdicts on one premise are not generated.');
p('C32', 'A code review judges exactly the change on current evidence, or records nothing',
	'A code review of a story judges exactly the files its build changed, as git reports them (renamed, deleted and oddly named files included), on evidence from the reviewed repository only, and never on an index older than those files: a stale index makes it ask, a granted wait ends with the fresh index or at its deadline, and a declined, expired or symbol-less one makes it judge the diff itself, every hunk of it or marked as cut, without ever passing. It records all four dimensions with exactly the judged findings that lie in the changed files, exact counts and the verdict they fold to, the same on both surfaces, or, when any judge, piece of evidence, judgement or stop fails, records nothing and can be retried; finished, foreign and premature tokens change nothing. Completion is blocked exactly when the story\'s own readable record says block, enforcement is on and no override reason is given.',
	['inputs', 'histories', 'fault_sequences'], 'all courses of up to 4 (5) index answers x 4 evidence x 2 diff histories x 3 deadlines x 3 replies; 52 malformed and all small sets of judgements on both modes; 7^4 answers of the four judges; every stop, write failure and wrong dimension; all interleavings of two reviews; 24 records x 6 configurations x 3 x 3 x 2 for the gate; all watermark combinations and 5^4 index states of two repositories; all call graphs on three symbols; 100 pairs of file states in real git repositories, uncommitted and committed',
	'Tests script one stale index, one decline and one diff, with fakes for git and the graph.',
	['src/mcp/code-review-step/handler.ts', 'src/workflow/code-review/runner.ts', 'src/workflow/code-review/gate.ts', 'src/workflow/code-review/grounding.ts', 'src/workflow/code-review/freshness.ts', 'src/workflow/code-review/subject.ts', 'src/workflow/code-review/dimensions/coverage.ts'],
	[{ name: 'handleCodeReviewStep', where: 'src/mcp/code-review-step/handler.ts' }, { name: 'runCodeReview', where: 'src/workflow/code-review/runner.ts' }, { name: 'enforceCodeReviewGate', where: 'src/workflow/code-review/gate.ts' }, { name: 'realDiffGroundingDeps', where: 'src/workflow/code-review/grounding.ts' }],
	EX, 'exhaustive enumeration of index, evidence, diff, judge and failure courses, index states and git working trees on the real code against an independent account of the review', 'The daemon connection, clock and model are scripted; git, the graph store and the file system are real. Untracked files are not part of what git reports as changed.');
p('C27', 'Every token continues exactly its own design conversation at its own stage',
	'A token of a step-by-step design conversation continues exactly its own conversation at its own stage, as often as it is used and however conversations interleave or overlap, with the prompts and step outputs its plan and the answers so far determine. Wrong-stage, unknown, malformed and finished tokens, unfit plans, failing runners, unfit artifacts and failed writes answer with an error and have no effect; finishing writes exactly the artifact, as its document and its record in its own repository, and only then ends its token. Token stores (design, review, code review, analysis) keep what was stored until it is taken, an hour passes without use, or a hundred others have been used more recently.',
	['histories', 'inputs', 'schedules', 'fault_sequences'], 'all reachable token sets of two conversations within 6 (7) requests (a deterministic, an asking and a mixed plan), every request on every token in each; all unfit plans, answers and artifacts; every write failure of a finish; all interleavings of two overlapping calls; all operation sequences up to depth 4 (6) on each of the four stores at full capacity and around the hour',
	'Tests walk one conversation once, in order.',
	['src/mcp/workflow-step/handler.ts', 'src/mcp/workflow-step/state.ts', 'src/mcp/workflow-step/state-store.ts', 'src/mcp/workflow-step/phases/start.ts', 'src/mcp/workflow-step/phases/plan.ts', 'src/mcp/workflow-step/phases/step.ts', 'src/mcp/workflow-step/phases/synthesize.ts', 'src/mcp/review-step/state-store.ts', 'src/mcp/code-review-step/state-store.ts', 'src/mcp/analyze-step/state-store.ts'],
	[{ name: 'handleWorkflowStep', where: 'src/mcp/workflow-step/handler.ts' }],
	MC, 'explicit-state exploration of the token model, every transition replayed on the real handler and stores', 'Runners and model answers are stand-ins; the runners of the real workflows are covered by other checks.');
p('C29', 'No stage starts over an open question; an answer settles the one it names',
	'A design or plan stage does not start while a question of the artifact it builds on lacks an answer of its own, and then asks exactly the open ones, in order, each with options made for it. An answer (resolved, ignored or deferred; the latest counts) settles exactly the question named and changes only the answers of that artifact and their place in its document; invalid requests change nothing, and provider failures, overlapping answers and interrupted writes lose no answer. The deferred review lists exactly the deferred questions of the epic, each with a call that answers it.',
	['histories', 'inputs', 'schedules', 'fault_sequences'], 'all lists of up to 3 (4) of 9 question texts, including shared and odd tags, on each upstream artifact of two epics; all answer sequences to depth 3; every invalid request; every provider failure point, overlap of two answers and write failure',
	'Tests resolve one question per artifact.',
	['src/workflow/questions.ts', 'src/mcp/workflow-step/questions-gate.ts', 'src/mcp/workflow-step/phases/resolve-question.ts', 'src/mcp/workflow-step/phases/review-deferred.ts', 'src/mcp/workflow-step/phases/start.ts'],
	[{ name: 'handleWorkflowStep', where: 'src/mcp/workflow-step/handler.ts' }],
	EX, 'exhaustive enumeration of question and answer histories on the real gate and handler against an independent model, with fault and overlap enumeration', 'Options come from a stub provider.');
p('C31', 'Size routes a request; a build runs only for its task, on a current plan',
	'Triage routes a request exactly by its judged size with the request\'s text unchanged, the call it hands out works, and classifications outside its schema or malformed tokens route nothing. An identifier (issue, hierarchical id, label) names exactly one node or none, and a build prompt is issued only for that one task, with that task\'s own text, checks and decisions, when the story\'s plan is approved and made from the current design (standalone: the approved standalone LLD, or none for a trivial change, which is recorded); otherwise it refuses with the true reason and touches nothing. A validation passes only when the session\'s verdict says passed true, and records it in the story\'s build ledger, keeping other tasks\' verdicts and completion stamps, whatever overlaps or write faults occur.',
	['inputs', 'histories', 'fault_sequences', 'schedules'], 'all requests x classifications x malformed tokens, following the call each route hands out; all spellings of identifiers over two epics with nested ids and recorded issues; every state of definition, design, plan and LLD (missing, unapproved, stale, unreadable, foreign) on every task; all verdict texts; all ledger histories up to length 4 with write faults and overlaps',
	'Tests build one task of one approved plan and parse a handful of verdicts.',
	['src/mcp/triage-step/handler.ts', 'src/mcp/triage-step/state.ts', 'src/mcp/triage-step/phases/start.ts', 'src/mcp/triage-step/phases/classify.ts', 'src/workflow/triage/classify.ts', 'src/mcp/build-step/handler.ts', 'src/mcp/build-step/render.ts', 'src/mcp/build-step/phases/implement.ts', 'src/mcp/build-step/phases/validate.ts', 'src/workflow/runners/build/admission.ts', 'src/workflow/runners/build/standalone-record.ts', 'src/workflow/tracker/resolve.ts', 'src/workflow/id.ts'],
	[{ name: 'handleTriageStep', where: 'src/mcp/triage-step/handler.ts' }, { name: 'handleBuildStep', where: 'src/mcp/build-step/handler.ts' }, { name: 'resolveWorkflowRef', where: 'src/workflow/tracker/resolve.ts' }],
	EX, 'exhaustive enumeration of requests, identifiers, artifact states, verdicts, ledger histories and write faults on the real handlers against an independent account', 'Tasks of a triaged standalone feature (no definition) are addressed by story only, not by identifier; a truncated verdict block is not asserted on.');
p('C33', 'Each epic, story and task gets one GitHub issue in the repo\'s own tracker',
	'Approving a design or plan with the tracker on gives each epic, story and task exactly one GitHub issue in the repo\'s own GitHub repository, however often approvals are repeated and whichever gh call fails in between; issues, epic task list, artifacts and documents refer to each other, and nothing else of the documents changes. A failed or skipped push never undoes or blocks the approval, says why, and can be completed later; with the tracker off nothing is sent. The check-in commits exactly the artifact\'s files, syncing only reads and records each issue\'s true status, and setup adds only what is missing and keeps the user\'s other configuration.',
	['histories', 'fault_sequences', 'crash_points', 'inputs'], 'all approval histories up to length 3 (some 4; thorough all 4) of a HLD, two LLDs and a plan under 16 configurations; every gh call and file write failing or cut off in each of 5 histories, then all approvals again; all status x label combinations for sync and every fault in it; real git working trees (user state x remote x hook); 5 x 5 x 4 x 2 x 8 x 2 x 2 setup states, each run twice; all entries x defaults x remotes of the configuration; all refs a driven push or sync may report',
	'Tests push one epic once against a stub that answers every call.',
	['src/workflow/tracker-auto.ts', 'src/workflow/tracker/github.ts', 'src/workflow/tracker/conventions.ts', 'src/workflow/tracker/refs.ts', 'src/workflow/tracker/link.ts', 'src/workflow/tracker/sync.ts', 'src/workflow/tracker/setup.ts', 'src/workflow/config/github.ts', 'src/workflow/synthesizer.ts', 'src/cli/services/workflow.ts', 'src/workflow/orchestrator.ts'],
	[{ name: 'approve', where: 'src/cli/services/workflow.ts' }, { name: 'autoPushEpicOnHld', where: 'src/workflow/tracker-auto.ts' }, { name: 'sync', where: 'src/cli/services/workflow.ts' }, { name: 'trackerSetup', where: 'src/cli/services/workflow.ts' }],
	FE, 'exhaustive enumeration of approval histories, configurations and single faults on the real code against an in-memory GitHub; real git for the check-in', 'A gh call that fails is taken to have had no effect. An issue created right before a crash or failed write may be created once more (stories and tasks; an epic is found again by its labels). A story added later is not asserted in the epic\'s list.');
p('C30', 'A finished stage yields its artifact exactly when the body is fit, else nothing',
	'A stage of the workflow (stub, brainstorm, define, extend, epic design, story design, standalone design, plan, tracker stages) yields an artifact exactly when the emitted body has every required field in its type, every reference to a citation, story, contract, constraint, criterion or task resolves, its graphs are acyclic and ordered, ownership, rollout, acceptance mapping, test coverage and rejected directions are complete, and its upstream exists and is approved. The artifact then holds exactly what was emitted, in the JSON and in the document, tied to its epic, story and the effective design (approved amendments in order), with the models that produced it. Anything else is refused as what it is (a failed scope boundary for good, a malformed body to be tried again), and a refusal or a finish changes no other file.',
	['inputs', 'histories'], 'complete bodies of 6 workflows x 2 attributions; every field of each body replaced by 9 kinds of junk; every placement of a citation reference; all audits; all dependency graphs of 3 stories and 3 tasks with unknown and self edges; all owner, boundary and rollout assignments over 2 contracts and 4 stories; all acceptance and coverage mappings; 7 amendment states; all upstream states; all lists of decisions and non-goals',
	'Tests finish each workflow with one good body and a handful of bad ones.',
	['src/workflow/orchestrator.ts', 'src/workflow/artifacts/define.ts', 'src/workflow/artifacts/hld.ts', 'src/workflow/artifacts/lld.ts', 'src/workflow/artifacts/plan.ts', 'src/workflow/artifacts/spec.ts', 'src/workflow/gates.ts'],
	[{ name: 'finalizeArtifact', where: 'src/workflow/orchestrator.ts' }, { name: 'prepareDecompose', where: 'src/workflow/orchestrator.ts' }],
	EX, 'exhaustive enumeration of emitted bodies, audits, graphs, mappings and upstream states on the real finalisation against an independent account of fitness', 'The heuristics that tell an interface sketch from code are asserted only on clear cases. Fields nested inside define, design.story and plan bodies are asserted for reference integrity, not for type.');
p('C34', 'Git tools do exactly the git operation asked, guard the risky ones, report truly',
	'A git tool (status, diff, log, show, blame, branch, checkout, cherry-pick, commit, amend, fetch, merge, pull, push, rebase, remote, reset, revert, stage, stash, tag, worktree) leaves refs, index, files, stash, configuration, worktrees and the remote exactly as the one git operation asked for would, and succeeds exactly when git does. It refuses, changing nothing, an argument git would take for an option, a missing argument, an unpermitted forced push to main, master, trunk or release/* however the ref is spelled, and a commit on a detached head or of nothing; without approval nothing but remote-tracking refs and tags changes, and the approval names what will be done. What it reports (branches, files by their real names, conflicts, commits, line numbers, stashes, remotes, force-push needs) is what git then holds.',
	['inputs', 'histories'], '472 operations x up to 20 repository states (clean, dirty, detached, unborn, hooked, in and after a conflicting merge, rebase, pick and revert, stashed, worktrees, remotes, diverged); thorough: all pairs with 10 earlier git operations; all spellings of a pushed ref x ways of forcing it; every reading tool on every state',
	'Tests run each tool in one or two tidy repositories with plain ASCII names.',
	['src/daemon/tools/builtins/git/amend.ts', 'src/daemon/tools/builtins/git/blame.ts', 'src/daemon/tools/builtins/git/branch.ts', 'src/daemon/tools/builtins/git/checkout.ts', 'src/daemon/tools/builtins/git/cherry-pick.ts', 'src/daemon/tools/builtins/git/commit.ts', 'src/daemon/tools/builtins/git/diff.ts', 'src/daemon/tools/builtins/git/fetch.ts', 'src/daemon/tools/builtins/git/helpers.ts', 'src/daemon/tools/builtins/git/index.ts', 'src/daemon/tools/builtins/git/log.ts', 'src/daemon/tools/builtins/git/merge.ts', 'src/daemon/tools/builtins/git/pull.ts', 'src/daemon/tools/builtins/git/push.ts', 'src/daemon/tools/builtins/git/rebase.ts', 'src/daemon/tools/builtins/git/remote.ts', 'src/daemon/tools/builtins/git/reset.ts', 'src/daemon/tools/builtins/git/revert.ts', 'src/daemon/tools/builtins/git/show.ts', 'src/daemon/tools/builtins/git/stage.ts', 'src/daemon/tools/builtins/git/stash.ts', 'src/daemon/tools/builtins/git/status.ts', 'src/daemon/tools/builtins/git/tag.ts', 'src/daemon/tools/builtins/git/worktree.ts', 'src/daemon/tools/shell-helper.ts'],
	[{ name: 'registerGitTools', where: 'src/daemon/tools/builtins/git/index.ts' }, { name: 'execute', where: 'src/daemon/tools/builtins/git/push.ts' }],
	EX, 'exhaustive enumeration of operations x repository states, each run through the real tool and through git itself on equal copies with a fixed clock, comparing the whole repositories', 'The installed git is the reference. git_diff line counts under whitespace flags, pathspec globs, and annotated tags in git_show are not asserted.');
p('C35', 'A data question is answered from the data, and asking changes nothing',
	'Every answer of the data tools (describe, sample with any filter, aggregate, distinct values, histogram, correlation, outliers, functional dependency, orphan rows, trend, stationarity, gap statistics, plan, tables, indexes, document shape, file listing) over a SQLite database or a CSV, TSV, JSON, JSONL or Parquet source is the one the rows of exactly the named source give, including empty, null, tied, extreme and far-from-zero values, integers beyond 2^53 and names needing quotes. Results are cut only at the stated limits and then say so; an unknown column, table or operator, an argument out of range and a path outside the repository are refused, and values in a filter are never read as SQL or as a pattern beyond the operator asked for. No question, however its arguments are spelled, changes a byte of the source.',
	['inputs'], 'all tables of up to 4 rows over a 6-row alphabet in SQLite (3 in Parquet and text formats) x all 110 single filter clauses and 4 request filters x every operation and aggregate; tables far from zero; name, path and format variants; hostile arguments',
	'Tests ask each driver a few questions about one small table and check generated SQL text.',
	['src/daemon/db/drivers/rdbms-common.ts', 'src/daemon/db/drivers/sqlite.ts', 'src/daemon/db/drivers/duckdb-file.ts', 'src/daemon/db/drivers/shape-common.ts', 'src/daemon/db/config.ts', 'src/daemon/db/pool.ts', 'src/daemon/db/list-files.ts', 'src/daemon/tools/builtins/db/index.ts'],
	[{ name: 'registerDbTools', where: 'src/daemon/tools/builtins/db/index.ts' }, { name: 'registerBuiltinDataDrivers', where: 'src/daemon/db/drivers/index.ts' }],
	EX, 'exhaustive enumeration of small tables x questions put to the real tools over real SQLite and DuckDB files, against a reference evaluation with three-valued logic and textbook statistics', 'SQL compiled for PostgreSQL, MySQL and other servers is run on the two embedded engines only where they accept it. Rounding inside the engine (statistics of values near 2^53 in DuckDB) and min/max of text are not asserted.');
p('C36', 'A data connection in use is the configured one, opened once and closed',
	'However questions, edits, removals, one-off registrations, idle closing, failing opens and shutdown of data connections overlap, a question is answered through an open driver with settings that were in force while it ran, fails only when its connection could not be opened, was absent or was shut down, equal settings are opened once, an unused driver is closed after its idle time and not before, and every driver is closed exactly once. Saving or deleting a connection, also two at a time, changes that one only and is in force at once; an unreadable list is refused, never overwritten. The password of a connection URL goes to the keychain and nowhere else, comes back in exactly the same URL whatever its characters, belongs to that connection alone and is removed with it; trying a connection out changes nothing and leaves nothing open, and file sources outside the repository are not opened.',
	['schedules', 'histories', 'inputs'], 'all schedules of 81 sets of 2-3 actors on the real pool; all histories of 3 saves, deletes and spoilt lists over 14 operations; all schedules of pairs of changes; URLs from all combinations of users, passwords, hosts and tails',
	'Tests call one operation at a time with one connection and a plain password.',
	['src/daemon/db/pool.ts', 'src/daemon/db/pool-cache.ts', 'src/daemon/db/config.ts', 'src/daemon/db/secrets.ts', 'src/daemon/db-rpc.ts'],
	[{ name: 'DriverPool', where: 'src/daemon/db/pool.ts' }, { name: 'saveConnectionRpc', where: 'src/daemon/db-rpc.ts' }, { name: 'extractUrlPassword', where: 'src/daemon/db/secrets.ts' }],
	MC, 'stateless model checking of the real driver pool under a controlled scheduler (stand-in drivers, file operations and timers), plus exhaustive enumeration of RPC histories against a reference list and keychain', 'A driver may be closed while an earlier question still uses it; real database servers and the operating system\'s keychain are not exercised.');
p('C37', 'A converted data source answers with what the source holds now, all of it',
	'A question about an Avro, BSON, Excel or fixed-width source (a file, a directory, recursive or not) is answered from a copy made from the content the source had while the question ran and with the settings in force: never from an older version, another file, another repository\'s source of the same name, removed files or other settings, whatever edits, replacements by older files, failures, evictions and other questions overlap it, and never from half a copy. An unchanged source is converted once; a failed conversion is tried again and leaves nothing behind; the cache keeps to its size by dropping whole copies not used recently. Conversion keeps every row, null, value, type and late or repeated column of the source.',
	['schedules', 'histories', 'inputs'], 'all schedules (a bound of 1200 per set) of 26 sets of 2-3 actors on the real cache; all histories of 4 questions and waits with eviction; all histories of 3 file and settings changes through the tools; all documents, worksheets, Avro files and fixed-width texts of up to 2-3 rows over alphabets of 6-15 values',
	'Tests convert one well-behaved file of each kind and look the cache up once.',
	['src/daemon/db/converter-cache.ts', 'src/daemon/db/drivers/duckdb-file.ts', 'src/daemon/db/drivers/converters/bson.ts', 'src/daemon/db/drivers/converters/xlsx.ts', 'src/daemon/db/drivers/converters/avro.ts', 'src/daemon/db/drivers/converters/fixed-width.ts', 'src/daemon/db/drivers/converters/shared.ts'],
	[{ name: 'ensureCached', where: 'src/daemon/db/converter-cache.ts' }, { name: 'registerBuiltinDataDrivers', where: 'src/daemon/db/drivers/index.ts' }],
	MC, 'stateless model checking of the real converter cache under a controlled scheduler, plus exhaustive enumeration of file histories and of small source files through the real drivers and tools', 'An edit that keeps both time and size of the file is not recognised; BSON doubles that are not numbers, integers beyond 2^53, documents without fields, truncated BSON and two sheets of one slug are not asserted.');
p('C38', 'Indexing a file yields exactly what it declares, imports and extends',
	'Parsing a TypeScript, JavaScript, Python, Go, Java or Scala file reports every declaration of the kinds documented for its language exactly once, with its name, kind, lines, text, and exported, async or abstract state, and nothing that is not declared (text in strings and comments is not code). Each declaration is linked to the file or type that defines it, the file to every module it imports (one entity per module), and each class or interface to every parent it extends or implements, whatever the order, nesting, encoding, line ends or size of the file and whatever was parsed before. A Markdown file becomes the sections its headings open, up to the next heading, other documents and configuration one entity each, and lock files none.',
	['inputs', 'histories'], 'all pairs of 45-90 pieces per language, all class bodies of up to 2 members (3 in the thorough run) under every class header, all __all__ lists over 4 names, all Markdown texts of up to 5 lines over 7 line kinds: about 33 000 programs',
	'Tests parse one short program per feature, and several languages have no structural tests at all.',
	['src/indexer/parser/typescript.ts', 'src/indexer/parser/python.ts', 'src/indexer/parser/go.ts', 'src/indexer/parser/java.ts', 'src/indexer/parser/scala.ts', 'src/indexer/parser/artifact.ts'],
	[{ name: 'getParser', where: 'src/indexer/parser/registry.ts' }, { name: 'CodeParser.parse', where: 'src/indexer/parser/base.ts' }],
	EX, 'bounded-exhaustive enumeration of programs from a grammar per language, each built together with what it declares, against the real parsers', 'Declarations whose treatment is not documented (enum members, class expressions, overloads, functions nested in Python functions) are left out; two declarations of one name in a file are not asked about.');
p('C39', 'Calls to code, HTTP services and message brokers are recorded exactly',
	'For every function or method the parser records the calls its body makes (TypeScript and JavaScript: each callee name once, without built-ins; Java and Scala: receiver and name, and constructions), one HTTP edge for each call of a documented HTTP client with the URL argument as written, and one publish or subscribe edge for each documented broker call with its topic as written, and no others, whatever statements, expressions, closures or classes the call is nested in; a call without a URL or topic gives no such edge. A TypeScript receiver is an HTTP client only if its nearest binding is an axios instance or it is a field or constructor parameter of its own class typed HttpClient, a Python one only if its last binding in the function is a requests or httpx client. Broker calls, and HTTP calls in Java and Scala, count only in files that import such a library, and what one file contains never changes what another reports.',
	['inputs', 'histories'], 'all call shapes in all statement contexts and nested expression contexts, all binding and shadowing patterns over two nested scopes, all pairs of class fields, all pairs of broker calls under all imports, all sequences of 3 Python bindings and calls: about 79 000 programs, each parsed twice in opposite orders',
	'Tests check about forty hand-written snippets.',
	['src/indexer/parser/typescript.ts', 'src/indexer/parser/python.ts', 'src/indexer/parser/go.ts', 'src/indexer/parser/java.ts', 'src/indexer/parser/scala.ts', 'src/indexer/parser/http-client-shapes.ts', 'src/indexer/parser/messaging-client-shapes.ts'],
	[{ name: 'matchHttpClient', where: 'src/indexer/parser/http-client-shapes.ts' }, { name: 'matchMessagingClient', where: 'src/indexer/parser/messaging-client-shapes.ts' }],
	EX, 'bounded-exhaustive enumeration of call shapes, nesting, bindings, imports and parse orders against a reference written from the language and the documented tables', 'Documented recall gaps are expected as documented; block-scoped shadowing and module-level clients are not asked about.');
p('C40', 'Search tools list exactly what matches, below the directory asked about',
	'search_glob, search_list-dir, search_recent and search_grep (and runGrepSearch) return exactly the files, entries or lines below their root that match the documented pattern, kind, age, glob and case options, each once with its true path, line, size and time, leaving out hidden entries unless asked and the ignored build directories, never following links to directories, and in the documented order (newest first). A result is cut only at the limit and then says so, and the printed report names every result; ripgrep and the Node scan give the same hits. The directory searched is the one permission was asked for.',
	['inputs'], 'all globs of up to 3 parts from 15 (thorough: 4) and 40 hand-made ones with all limits, all combinations of listing, recency and grep options over a tree of 18 files and links, all 1024 small trees, ages at the cutoff and a second either side, lists longer than each default limit',
	'The one test file covers repeated grep hits in a file.',
	['src/daemon/tools/builtins/search/glob.ts', 'src/daemon/tools/builtins/search/grep.ts', 'src/daemon/tools/builtins/search/list-dir.ts', 'src/daemon/tools/builtins/search/recent.ts'],
	[{ name: 'searchGlobTool', where: 'src/daemon/tools/builtins/search/glob.ts' }, { name: 'runGrepSearch', where: 'src/daemon/tools/builtins/search/grep.ts' }],
	EX, 'bounded-exhaustive enumeration of patterns, options, limits and directory trees against a reference walk and matcher', 'The real ripgrep is not installed here; a stand-in prints its documented format.');
p('C41', 'Cloud, Kubernetes and GitHub tools run exactly the command asked for, guarded',
	'Each of the 118 cloud (aws, gcloud, az), kubectl and gh tools runs, without a shell, the one documented command with every option given passed exactly once and unchanged, in the scope (profile, region, project, subscription, context, namespace, repository) asked for; it reports a failing, killed or missing program as a failure, and content handed over in a temporary file is that call\'s content even when calls overlap, and is removed afterwards. Tools that change things or reveal secrets need approval, whose text names the target and the scope, and a kept approval serves only its own scope and resource; bulk and wholesale deletions run only with the confirmation that matches them exactly. Secret values are printed only with reveal: true and never in an approval text.',
	['inputs', 'schedules', 'fault_sequences'], 'every tool with each option, each pair of options and all of them, each under three kinds of values; every confirmation right and wrong; every secret tool with and without reveal; every completion order of up to 3 overlapping calls in the same millisecond; failing, killed and missing programs',
	'Tests run few of the tools, with one set of options each, and never two at a time.',
	['src/daemon/tools/builtins/cloud/aws/s3.ts', 'src/daemon/tools/builtins/cloud/gcp/secrets.ts', 'src/daemon/tools/builtins/cloud/az/vm.ts', 'src/daemon/tools/builtins/k8s/index.ts', 'src/daemon/tools/builtins/gh/issue.ts', 'src/daemon/tools/shell-helper.ts'],
	[{ name: 'awsAccess', where: 'src/daemon/tools/builtins/cloud/aws/helpers.ts' }, { name: 'k8sDeleteTool', where: 'src/daemon/tools/builtins/k8s/index.ts' }, { name: 'runShell', where: 'src/daemon/tools/shell-helper.ts' }],
	EX, 'bounded-exhaustive enumeration of tools, options, confirmations, program outcomes and completion orders against a table of the documented commands', 'The programs are stand-ins that record their arguments.');
