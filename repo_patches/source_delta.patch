From 0d8a403bc48bece75ebf2c690286238aa680e83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:31 +0000
Subject: [PATCH 001/145] fix: roll back a write transaction whose callback
 throws

lmdb-js commits the writes a transaction() callback made before it threw, so
withWriteTxn (and the migration runner) left partial changes behind.
---
 src/db/graph/migrations.ts | 4 +++-
 src/db/graph/store.ts      | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/db/graph/migrations.ts b/src/db/graph/migrations.ts
index 730e187..9c78abf 100644
--- a/src/db/graph/migrations.ts
+++ b/src/db/graph/migrations.ts
@@ -439,7 +439,9 @@ export async function runMigrations(
 		}
 
 		const t0 = Date.now();
-		await store.root.transaction(async () => {
+		// childTransaction, not transaction: lmdb-js only rolls a callback's
+		// writes back on a throw when it runs as a child transaction.
+		await store.root.childTransaction(async () => {
 			await step.run(store);
 			// Advance the version IN THE SAME TXN so a crash either
 			// rolls everything (including the version write) back, or
diff --git a/src/db/graph/store.ts b/src/db/graph/store.ts
index 95d9383..578237e 100644
--- a/src/db/graph/store.ts
+++ b/src/db/graph/store.ts
@@ -628,7 +628,9 @@ export async function withWriteTxn<T>(
 	fn: (store: GraphStore) => T | Promise<T>,
 ): Promise<T> {
 	const store = await getGraphStore();
-	return store.root.transaction(() => fn(store));
+	// lmdb-js commits whatever a `transaction()` callback wrote before it
+	// threw; only a child transaction is rolled back on a throw.
+	return store.root.childTransaction(() => fn(store)) as Promise<T>;
 }
 
 /**
-- 
2.43.0


From 13edc9c709dfef6d9c496c21f9142ba5f9019d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:56 +0000
Subject: [PATCH 002/145] fix: never address the reserved shared-modules rows
 by the empty path

Their path is '', so removeRepo('') deleted every shared module entity and
upsertEntities accepted workspace entities with an empty repo.
---
 src/db/relations.ts | 2 +-
 src/db/repos.ts     | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/db/relations.ts b/src/db/relations.ts
index 5d5f6ae..50fb7e2 100644
--- a/src/db/relations.ts
+++ b/src/db/relations.ts
@@ -447,7 +447,7 @@ function deleteUnresolvedRowInTxn(s: GraphStore, id: string): void {
 function repoIdByPathInTxn(s: GraphStore, path: string): number | undefined {
 	for (const { key, value } of s.repo.getRange()) {
 		const row = decodeRepoRow(value as Buffer);
-		if (row.path === path) {
+		if (row.kind === 'workspace' && row.path === path) {
 			return (key as Buffer).readUInt32BE(0);
 		}
 	}
diff --git a/src/db/repos.ts b/src/db/repos.ts
index 5479ae9..42f6a71 100644
--- a/src/db/repos.ts
+++ b/src/db/repos.ts
@@ -284,7 +284,9 @@ export async function updateRepoStatus(
 function findRepoIdByPath(store: GraphStore, path: string): number | undefined {
 	for (const { key, value } of store.repo.getRange()) {
 		const row = decodeRepoRow(value as Buffer);
-		if (row.path === path) {
+		// The reserved shared-modules rows carry path '' and are not
+		// addressable by path.
+		if (row.kind === 'workspace' && row.path === path) {
 			return (key as Buffer).readUInt32BE(0);
 		}
 	}
-- 
2.43.0


From 7859df14845e03f5de4f3b1874067bc28df282ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:22 +0000
Subject: [PATCH 003/145] fix: reindexFile must not skip rows whose flags or
 endpoint fields changed

The unchanged short-cut compared a few columns only, so e.g. adding
'export { f }' elsewhere in the file left f's isExported stale.
---
 src/db/entities.ts | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/db/entities.ts b/src/db/entities.ts
index 9d3295e..879a352 100644
--- a/src/db/entities.ts
+++ b/src/db/entities.ts
@@ -441,19 +441,13 @@ export async function reindexFile(
 				continue;
 			}
 
-			// Body-write short-circuit: skip the put if everything that
-			// would change is identical. We compare contentHash + body
-			// (contentHash alone is a hash collision risk but body adds
-			// the actual-bytes safety net).
+			// Body-write short-circuit: skip the put if nothing but the
+			// indexing timestamp would change.
 			const newRow = entityToRow(e, repoId, repoPath);
 			if (prevBuf !== undefined) {
 				const prev = decodeEntityRow(prevBuf as Buffer);
-				if (prev.contentHash === newRow.contentHash
-				 && prev.body === newRow.body
-				 && prev.startLine === newRow.startLine
-				 && prev.endLine === newRow.endLine
-				 && prev.signature === newRow.signature
-				 && prev.embeddingModel === newRow.embeddingModel) {
+				const unchanged = { ...newRow, indexedAt: prev.indexedAt };
+				if (encodeEntityRow(unchanged).equals(prevBuf as Buffer)) {
 					seen.add(u64);
 					continue; // unchanged -- skip write
 				}
-- 
2.43.0


From f446ffa3e2fdf897027d63b13956505f6643fb3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:11 +0000
Subject: [PATCH 004/145] fix: drop the stale vector and by-file entry when a
 row is overwritten

An entity re-written without an embedding kept its old vector, and the next
first-embed added a second one; an unresolved relation re-written from another
file stayed listed under the old file.
---
 src/db/entities.ts  | 13 +++++++++++++
 src/db/relations.ts |  3 +++
 2 files changed, 16 insertions(+)

diff --git a/src/db/entities.ts b/src/db/entities.ts
index 879a352..16c3bd6 100644
--- a/src/db/entities.ts
+++ b/src/db/entities.ts
@@ -219,6 +219,9 @@ export async function upsertEntities(_db: DbClient, entities: Entity[]): Promise
 	// Lance failure doesn't block the structural write.
 	type LanceWrite = { entity: Entity; firstEmbed: boolean };
 	const lanceWrites: LanceWrite[] = [];
+	// Rows that go from embedded to un-embedded: their vector describes the
+	// previous version, and a later first-embed would `add` a second one.
+	const toLanceDelete: string[] = [];
 
 	await withWriteTxn(s => {
 		// Phase 5.x strict-contract resolver. The storage layer no
@@ -272,6 +275,9 @@ export async function upsertEntities(_db: DbClient, entities: Entity[]): Promise
 				// entry if any of those identity fields changed, then
 				// rewrite the new one. Idempotent for unchanged rows.
 				rewireNameIndexInTxn(s, existingU64, prev, row);
+				if (prev !== null && prev.embeddingModel !== '' && row.embeddingModel === '') {
+					toLanceDelete.push(e.id);
+				}
 				if (e.embedding !== undefined && e.embedding.length > 0) {
 					lanceWrites.push({
 						entity: e,
@@ -295,6 +301,10 @@ export async function upsertEntities(_db: DbClient, entities: Entity[]): Promise
 		}
 	});
 
+	if (toLanceDelete.length > 0) {
+		const { deleteEntityVecsByIds } = await import('./lance/entity-vec.js');
+		await deleteEntityVecsByIds(toLanceDelete);
+	}
 	// Push vectors to Lance after the LMDB commit. Two paths:
 	//   - firstEmbed:  use addEntityEmbeddings (raw .add(), no JOIN).
 	//                  Indexer's bulk first-index hits this path for
@@ -456,6 +466,9 @@ export async function reindexFile(
 			const prev = prevBuf !== undefined ? decodeEntityRow(prevBuf as Buffer) : null;
 			s.entity.put(encodeEntityKey(u64), encodeEntityRow(newRow));
 			rewireNameIndexInTxn(s, u64, prev, newRow);
+			if (prev !== null && prev.embeddingModel !== '' && newRow.embeddingModel === '') {
+				toLanceDelete.push(e.id);
+			}
 			if (e.embedding !== undefined && e.embedding.length > 0) {
 				lanceWrites.push({
 					entity: e,
diff --git a/src/db/relations.ts b/src/db/relations.ts
index 50fb7e2..3227c24 100644
--- a/src/db/relations.ts
+++ b/src/db/relations.ts
@@ -265,6 +265,9 @@ async function upsertUnresolvedRelations(relations: Relation[]): Promise<void> {
 				repoIdCache.set(t.repoPath, repoId);
 			}
 			const row: UnresolvedRow = { ...t.row, repoId };
+			// Drop a prior row first: its by-file entry may be keyed by
+			// another file.
+			deleteUnresolvedRowInTxn(s, t.id);
 			// Write the canonical row
 			s.unresolved.put(t.id, encodeUnresolvedRow(row));
 			// Maintain the (repoId, fromFile) -> id dupsort index
-- 
2.43.0


From c751d7630b9c47915828cb9cf3e205010ee9da7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:07 +0000
Subject: [PATCH 005/145] fix: the v2->v3 migration also drops edges of the
 entities it removes

---
 src/db/graph/migrations.ts | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/db/graph/migrations.ts b/src/db/graph/migrations.ts
index 9c78abf..0ef15ac 100644
--- a/src/db/graph/migrations.ts
+++ b/src/db/graph/migrations.ts
@@ -43,8 +43,11 @@ import {
 } from '../../shared/repo-namespaces.js';
 import {
 	decodeEntityKey,
+	decodeOutEdgeKey,
 	encodeEntityKey,
+	encodeInEdgeKey,
 	encodeNameIndexKey,
+	encodeOutEdgeKey,
 	encodeRepoKey,
 	ENTITY_KIND_BYTE,
 } from './keys.js';
@@ -348,6 +351,20 @@ const MIGRATION_V2_TO_V3: Migration = {
 			phantomsDropped++;
 		}
 
+		// Edges with a dropped endpoint, in both mirrors.
+		const dropped = new Set<bigint>(phantoms.flatMap(p => [...p.u64s]));
+		if (dropped.size > 0) {
+			const deadEdges: { from: bigint; kind: number; to: bigint }[] = [];
+			for (const { key } of store.outEdge.getRange()) {
+				const e = decodeOutEdgeKey(key as Buffer);
+				if (dropped.has(e.from) || dropped.has(e.to)) deadEdges.push(e);
+			}
+			for (const e of deadEdges) {
+				store.outEdge.remove(encodeOutEdgeKey(e.from, e.kind, e.to));
+				store.inEdge.remove(encodeInEdgeKey(e.to, e.kind, e.from));
+			}
+		}
+
 		log.info(
 			{ provisioned, modulesRewired, phantomsDropped, phantomEntitiesDropped },
 			'v2->v3: repo-registry strict contract migration complete',
-- 
2.43.0


From 15d8b2fba5ba1546df65d1af02606013c0dfff2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:27 +0000
Subject: [PATCH 006/145] fix: compaction never leaves the graph store path
 without an env

---
 src/db/graph/store.ts | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/db/graph/store.ts b/src/db/graph/store.ts
index 578237e..f44621b 100644
--- a/src/db/graph/store.ts
+++ b/src/db/graph/store.ts
@@ -50,7 +50,7 @@
  * `db/graph/{entities,edges,traversal,bulk}.ts` (Phase 2.x).
  */
 
-import { existsSync, mkdirSync, renameSync, rmSync, statSync } from 'node:fs';
+import { existsSync, linkSync, mkdirSync, renameSync, rmSync, statSync } from 'node:fs';
 import { dirname } from 'node:path';
 
 import { open, type Database, type RootDatabase } from 'lmdb';
@@ -489,7 +489,8 @@ export interface CompactResult {
  *      any writer that landed between steps 1 and 2 -- those writes
  *      are lost; caller is expected to quiesce the system before
  *      compact, see the daemon-side check).
- *   3. Atomic rename: original → `.bak`, `.compact` → original.
+ *   3. Hard-link original → `.bak`, then atomically rename
+ *      `.compact` over original.
  *   4. Re-open the env at the original path.
  *   5. Best-effort delete `.bak` on success. Left in place on rename
  *      failure so the user can manually recover.
@@ -536,7 +537,11 @@ export async function compactGraphStore(): Promise<CompactResult> {
 	// Step 3: atomic rename. If anything fails here, the .bak + .compact
 	// files stay on disk for manual recovery.
 	try {
-		renameSync(originalPath, bakPath);
+		// Keep the old env reachable as .bak through a hard link, so that
+		// `originalPath` names a complete env at every instant: a crash
+		// between two renames would leave it missing, and the next boot
+		// would create an empty store there.
+		linkSync(originalPath, bakPath);
 		renameSync(compactPath, originalPath);
 		// Lock files are a leftover from the previous open; LMDB
 		// recreates them on the next open. Best-effort cleanup.
-- 
2.43.0


From 549a727b55b40aa51bcb5f47cc5bfbaae272a213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:51 +0000
Subject: [PATCH 007/145] fix: a repeated backup replaces the previous one only
 once it is complete

---
 src/daemon/backup.ts | 35 ++++++++++++++++++++++++++---------
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/src/daemon/backup.ts b/src/daemon/backup.ts
index dd71f9d..93b1ba9 100644
--- a/src/daemon/backup.ts
+++ b/src/daemon/backup.ts
@@ -24,7 +24,7 @@
  *   lance/               full Lance store directory tree
  */
 
-import { existsSync, mkdirSync, readdirSync, rmSync, statSync } from 'node:fs';
+import { existsSync, mkdirSync, readdirSync, renameSync, rmSync, statSync } from 'node:fs';
 import { cp } from 'node:fs/promises';
 import { join } from 'node:path';
 
@@ -57,14 +57,16 @@ export async function backupAll(targetDir: string): Promise<BackupResult> {
 	// 1. LMDB snapshot. lmdb-js's root.backup runs the copy under a
 	//    snapshot read txn so concurrent writes don't tear the file.
 	//    The underlying mdb_env_copy2 requires the target to not
-	//    exist -- pre-clear it so re-runs over the same target dir
-	//    overwrite idempotently. The matching lock-file (if any) is
-	//    also removed; LMDB recreates it on first restore-side open.
+	//    exist, so the copy goes to a side file that replaces the
+	//    previous backup only once it is complete. The matching
+	//    lock-file (if any) is removed; LMDB recreates it on first
+	//    restore-side open.
 	const lmdbTarget = join(targetDir, 'graph.lmdb');
-	if (existsSync(lmdbTarget))            rmSync(lmdbTarget,            { force: true });
-	const lmdbLock = `${lmdbTarget}-lock`;
-	if (existsSync(lmdbLock))              rmSync(lmdbLock,              { force: true });
-	await backupGraphStore(lmdbTarget, { compact: false });
+	const lmdbPartial = `${lmdbTarget}.partial`;
+	rmSync(lmdbPartial, { force: true });
+	await backupGraphStore(lmdbPartial, { compact: false });
+	rmSync(`${lmdbTarget}-lock`, { force: true });
+	renameSync(lmdbPartial, lmdbTarget);
 	const lmdbBytes = existsSync(lmdbTarget) ? statSync(lmdbTarget).size : 0;
 	log.info({ target: lmdbTarget, bytes: lmdbBytes }, 'lmdb snapshot done');
 
@@ -77,10 +79,19 @@ export async function backupAll(targetDir: string): Promise<BackupResult> {
 	const lanceTarget = join(targetDir, 'lance');
 	let lanceBytes = 0;
 	if (existsSync(lanceSource)) {
-		await cp(lanceSource, lanceTarget, { recursive: true, force: true });
+		// Copy aside, then swap: files of a previous backup must not mix
+		// with (or outlive) this snapshot.
+		const lancePartial = `${lanceTarget}.partial`;
+		rmSync(lancePartial, { recursive: true, force: true });
+		await cp(lanceSource, lancePartial, { recursive: true, force: true });
+		dropPrevious(lanceTarget);
+		renameSync(lancePartial, lanceTarget);
+		rmSync(`${lanceTarget}.old`, { recursive: true, force: true });
 		lanceBytes = directorySize(lanceTarget);
 		log.info({ target: lanceTarget, bytes: lanceBytes }, 'lance snapshot done');
 	} else {
+		dropPrevious(lanceTarget);
+		rmSync(`${lanceTarget}.old`, { recursive: true, force: true });
 		log.info({ source: lanceSource }, 'lance source missing; skipping (fresh daemon)');
 	}
 
@@ -89,6 +100,12 @@ export async function backupAll(targetDir: string): Promise<BackupResult> {
 	return { targetDir, lmdbBytes, lanceBytes, elapsedMs };
 }
 
+/** Move a previous backup's directory aside as a whole, so an interruption never leaves half of it. */
+function dropPrevious(dir: string): void {
+	rmSync(`${dir}.old`, { recursive: true, force: true });
+	if (existsSync(dir)) renameSync(dir, `${dir}.old`);
+}
+
 /** Recursive directory size in bytes. */
 function directorySize(dir: string): number {
 	if (!existsSync(dir)) return 0;
-- 
2.43.0


From ef04deabfe3b475b7a2fb8aac64b148dfce2bc11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:06 +0000
Subject: [PATCH 008/145] fix: depth-bounded dfs visits every node within the
 bound

---
 src/db/graph/traversal.ts | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/db/graph/traversal.ts b/src/db/graph/traversal.ts
index e86af23..35417f7 100644
--- a/src/db/graph/traversal.ts
+++ b/src/db/graph/traversal.ts
@@ -117,12 +117,19 @@ export async function* dfs(
 	opts: TraversalOpts = {},
 ): AsyncGenerator<bigint> {
 	const store = await getGraphStore();
-	const visited = new Set<bigint>();
+	// Depth each node was expanded at. Under a depth bound a node first met
+	// on a long path has to be expanded again when a shorter one turns up.
+	const visited = new Map<bigint, number>();
+	const descend = new Map<bigint, boolean>(); // visitor's verdict, asked once per node
 
 	const kindBytes = compileKindFilter(opts.kindFilter);
 	const direction = opts.direction ?? 'out';
 	const maxDepth = opts.maxDepth ?? Number.POSITIVE_INFINITY;
 	const visitor = opts.visitor;
+	const settled = (n: bigint, depth: number): boolean => {
+		const at = visited.get(n);
+		return at !== undefined && (at <= depth || maxDepth === Number.POSITIVE_INFINITY);
+	};
 
 	// Iterative DFS using an explicit stack of (id, depth) pairs.
 	// Push roots in reverse so the first root is yielded first.
@@ -134,17 +141,21 @@ export async function* dfs(
 
 	while (stack.length > 0) {
 		const [node, depth] = stack.pop()!;
-		if (visited.has(node)) continue;
-		visited.add(node);
-		yield node;
+		if (settled(node, depth)) continue;
+		const first = !visited.has(node);
+		visited.set(node, depth);
+		if (first) yield node;
 		if (depth >= maxDepth) continue;
-		if (visitor !== undefined && visitor(node, depth) === false) continue;
+		if (visitor !== undefined) {
+			if (!descend.has(node)) descend.set(node, visitor(node, depth) !== false);
+			if (descend.get(node) === false) continue;
+		}
 		// Push neighbors (also in reverse so iteration order matches the
 		// BFS sub-DB scan order)
 		const ns = [...neighborsSync(store, node, direction, kindBytes)];
 		for (let i = ns.length - 1; i >= 0; i--) {
 			const n = ns[i]!;
-			if (!visited.has(n)) stack.push([n, depth + 1]);
+			if (!settled(n, depth + 1)) stack.push([n, depth + 1]);
 		}
 	}
 }
-- 
2.43.0


From fbf5ff9ba04d3ea8b196f1dbe373704ef2744e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:46 +0000
Subject: [PATCH 009/145] fix: re-indexing keeps the graph equal to the source
 tree

Imports of files indexed later were dropped, re-indexing a file dropped the
edges other files have into it for good, and a full index kept the rows of
deleted files and of the previous version of changed ones.
---
 src/indexer/cross-file-resolver.ts |  12 ++++
 src/indexer/index.ts               | 111 +++++++++++++++++++++++------
 2 files changed, 100 insertions(+), 23 deletions(-)

diff --git a/src/indexer/cross-file-resolver.ts b/src/indexer/cross-file-resolver.ts
index 0029997..bd10d6f 100644
--- a/src/indexer/cross-file-resolver.ts
+++ b/src/indexer/cross-file-resolver.ts
@@ -61,6 +61,7 @@ import {
   type UnresolvedRelation,
 } from '../db/relations.js';
 import { inNeighbors, outNeighbors } from '../db/graph/edges.js';
+import { resolveRelations } from './resolver.js';
 import type { SourceRoots } from './source-roots.js';
 
 const log = getLogger('cross-file-resolver');
@@ -280,6 +281,17 @@ async function runPass2(
   );
 
   const tImports = Date.now();
+  // Relative imports deferred until their target file was indexed: link
+  // them first, symbol resolution below goes through the import edges.
+  const imports = unresolved.flatMap(row => {
+    const [rel] = resolveRelations(
+      [{ kind: row.kind, from: row.fromEntity, to: row.rawTo, resolved: false, meta: row.meta }], row.fromFile, opts.repoRoot,
+    );
+    return row.kind === 'IMPORTS' && rel!.resolved && index.byId.has(rel!.to)
+      ? [{ unresolved: row, targetEntityId: rel!.to }] : [];
+  });
+  await promoteResolvedBatch(opts.db, imports);
+
   const importsByFile = await prefetchImportsByFile(opts.db, index);
   log.info(
     { repo: opts.repoRoot, files: importsByFile.size, elapsedMs: Date.now() - tImports },
diff --git a/src/indexer/index.ts b/src/indexer/index.ts
index 4bfa895..20f02d7 100644
--- a/src/indexer/index.ts
+++ b/src/indexer/index.ts
@@ -3,14 +3,17 @@ import { execFileSync } from 'node:child_process';
 import { createHash } from 'node:crypto';
 import { join, extname, resolve, relative, sep } from 'node:path';
 import type { DbClient } from '../db/client.js';
-import type { RegisteredRepo, IndexJob, ConfigScope } from '../shared/types.js';
+import type { RegisteredRepo, IndexJob, ConfigScope, Relation } from '../shared/types.js';
 import { upsertEntities } from '../db/entities.js';
 import { upsertRelations, deleteRelationsForFile, deleteUnresolvedForFile } from '../db/relations.js';
 import { runCrossFileResolver } from './cross-file-resolver.js';
 import { resolveExternalEndpoints } from './external-endpoints.js';
 import { resolveMessagingEndpoints } from './messaging-endpoints.js';
 import { detectSourceRoots } from './source-roots.js';
-import { deleteEntitiesForFile, getEntity } from '../db/entities.js';
+import {
+  deleteEntitiesForFile, entityIdsByU64s, entityU64ForId, findEntitiesByFile, getEntitiesByIds, getEntity, listEntitiesForRepo,
+} from '../db/entities.js';
+import { inNeighbors } from '../db/graph/edges.js';
 import { updateRepoStatus, lookupRepoId, UnregisteredRepoError } from '../db/repos.js';
 import { SHARED_MODULES_REPO_ID } from '../shared/repo-namespaces.js';
 import { embedEntities, embedText } from './embedder.js';
@@ -384,6 +387,14 @@ export class IndexerService {
         'full index: files to process',
       );
 
+      // Files indexed earlier that are gone (or no longer indexable).
+      // `git ls-files` also lists tracked files deleted from disk.
+      const current = new Set(supported.filter(f => existsSync(f)));
+      const known = existsSync(repoPath) ? await listEntitiesForRepo(this.db, repoPath) : [];
+      for (const e of known) {
+        if (e.kind === 'file' && !current.has(e.file)) await this.dropFile(e.file);
+      }
+
       for (const filePath of supported) {
         total++;
         if (total % 50 === 0 || total === 1) {
@@ -510,9 +521,7 @@ export class IndexerService {
       return;
     }
     if (event === 'delete') {
-      await deleteRelationsForFile(this.db, filePath);
-      await deleteEntitiesForFile(this.db, filePath);
-      await deleteUnresolvedForFile(this.db, filePath);
+      await this.dropFile(filePath);
       log.info({ file: filePath }, 'file deleted from index');
       this.scheduleSettle(repoPath, filePath);
       return;
@@ -580,15 +589,8 @@ export class IndexerService {
     if (scope === undefined || scope.size === 0) return;
 
     const sourceRoots = detectSourceRoots(repoPath);
-    let totalResolved = 0, totalAmbiguous = 0, totalRewired = 0;
-    for (const file of scope) {
-      const result = await runCrossFileResolver({
-        db: this.db, repoRoot: repoPath, sourceRoots, scopeFile: file,
-      });
-      totalResolved  += result.resolved;
-      totalAmbiguous += result.ambiguous;
-      totalRewired   += result.importsRewired;
-    }
+    // Unscoped: references *into* the touched files are rows of other files.
+    const result = await runCrossFileResolver({ db: this.db, repoRoot: repoPath, sourceRoots });
 
     // S003: resolve any CALLS_HTTP relations the just-edited files emitted into
     // externalEndpoint nodes + edges — once per repo, after the per-file loop.
@@ -616,7 +618,7 @@ export class IndexerService {
     }
 
     log.info(
-      { repo: repoPath, files: scope.size, resolved: totalResolved, ambiguous: totalAmbiguous, importsRewired: totalRewired },
+      { repo: repoPath, files: scope.size, resolved: result.resolved, ambiguous: result.ambiguous, importsRewired: result.importsRewired },
       'cross-file settle pass complete',
     );
   }
@@ -752,13 +754,14 @@ export class IndexerService {
     const hash = contentHash(source);
 
     // Skip if unchanged (handles editor save-without-change)
-    if (!cleanFirst) {
-      const existing = await getEntity(this.db, makeEntityId(repoPath, filePath, 'file', filePath));
-      if (existing?.hash === hash) {
-        log.debug({ file: filePath }, 'skipped (unchanged)');
-        return false;
-      }
-    } else {
+    const existing = await getEntity(this.db, makeEntityId(repoPath, filePath, 'file', filePath));
+    if (!cleanFirst && existing?.hash === hash) {
+      log.debug({ file: filePath }, 'skipped (unchanged)');
+      return false;
+    }
+    let dependents: ReadonlyMap<string, string> = new Map();
+    if (cleanFirst || existing !== null) {
+      dependents = await this.dependentsOf(filePath);
       await deleteRelationsForFile(this.db, filePath);
       await deleteEntitiesForFile(this.db, filePath);
       await deleteUnresolvedForFile(this.db, filePath);
@@ -789,7 +792,8 @@ export class IndexerService {
 
     // Persist
     await upsertEntities(this.db, result.entities);
-    await upsertRelations(this.db, resolved);
+    await upsertRelations(this.db, await this.deferMissingImports(result.relations, resolved, filePath, repoPath));
+    for (const [file, repo] of dependents) await this.relinkFile(file, repo);
 
     log.debug(
       { file: filePath, entities: result.entities.length, relations: resolved.length, resolved: resolvedCount },
@@ -798,6 +802,67 @@ export class IndexerService {
     return true;
   }
 
+  /** Remove everything stored for a file that is gone. */
+  private async dropFile(filePath: string): Promise<void> {
+    const dependents = await this.dependentsOf(filePath);
+    await deleteRelationsForFile(this.db, filePath);
+    await deleteEntitiesForFile(this.db, filePath);
+    await deleteUnresolvedForFile(this.db, filePath);
+    for (const [file, repo] of dependents) await this.relinkFile(file, repo);
+  }
+
+  /**
+   * Other files (-> their repo) with an edge into one of this file's
+   * entities. Deleting those entities drops the edges, so the caller
+   * re-derives them with `relinkFile` afterwards.
+   */
+  private async dependentsOf(filePath: string): Promise<ReadonlyMap<string, string>> {
+    const out = new Map<string, string>();
+    for (const e of await findEntitiesByFile(this.db, filePath)) {
+      const u64 = await entityU64ForId(e.id);
+      if (u64 === undefined) continue;
+      const ids = await entityIdsByU64s(await inNeighbors(u64));
+      for (const from of await getEntitiesByIds(this.db, [...ids.values()])) {
+        if (from.file !== '' && from.repo !== '' && from.file !== filePath) out.set(from.file, from.repo);
+      }
+    }
+    return out;
+  }
+
+  /** Re-derive the outgoing relations of an indexed file from its source. */
+  private async relinkFile(filePath: string, repoPath: string): Promise<void> {
+    const parser = getParser(filePath) ?? (basenameParser.handles(filePath) ? basenameParser : null);
+    const repoId = await lookupRepoId(repoPath);
+    if (!parser || repoId === undefined) return;
+    let source: string;
+    try { source = readFileSync(filePath, 'utf8'); }
+    catch { return; } // gone; its own delete event cleans up
+    const result   = parser.parse(filePath, source, repoPath, repoId);
+    const resolved = resolveRelations(result.relations, filePath, repoPath, result.entities);
+    await deleteUnresolvedForFile(this.db, filePath);
+    await upsertRelations(this.db, await this.deferMissingImports(result.relations, resolved, filePath, repoPath));
+  }
+
+  /**
+   * An import of a file that is not in the graph (yet) stays an unresolved
+   * relation, so that the cross-file pass links it once the file is indexed.
+   */
+  private async deferMissingImports(
+    parsed:   readonly Relation[],
+    resolved: readonly Relation[],
+    filePath: string,
+    repoPath: string,
+  ): Promise<Relation[]> {
+    const out: Relation[] = [];
+    for (const [i, rel] of resolved.entries()) {
+      const raw = parsed[i]!;
+      const deferred = rel.kind === 'IMPORTS' && rel.resolved && !raw.resolved
+        && (await getEntity(this.db, rel.to)) === null;
+      out.push(deferred ? { ...raw, meta: { ...raw.meta, file: filePath, repo: repoPath } } : rel);
+    }
+    return out;
+  }
+
   private async indexManifest(repoPath: string): Promise<void> {
     const deps = parseManifest(repoPath);
     if (deps.length === 0) {
-- 
2.43.0


From dc6da773ed04ccfc4780b39edf382470ea774234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:13 +0000
Subject: [PATCH 010/145] fix: startup and full index complete an interrupted
 or outdated index

Deleted files were kept across a restart, a full index after an interrupted one
skipped files whose relations were never stored, and generated files skipped by
a full index were indexed by file events.
---
 src/indexer/index.ts | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/indexer/index.ts b/src/indexer/index.ts
index 20f02d7..4bfd147 100644
--- a/src/indexer/index.ts
+++ b/src/indexer/index.ts
@@ -14,7 +14,7 @@ import {
   deleteEntitiesForFile, entityIdsByU64s, entityU64ForId, findEntitiesByFile, getEntitiesByIds, getEntity, listEntitiesForRepo,
 } from '../db/entities.js';
 import { inNeighbors } from '../db/graph/edges.js';
-import { updateRepoStatus, lookupRepoId, UnregisteredRepoError } from '../db/repos.js';
+import { listRepos, updateRepoStatus, lookupRepoId, UnregisteredRepoError } from '../db/repos.js';
 import { SHARED_MODULES_REPO_ID } from '../shared/repo-namespaces.js';
 import { embedEntities, embedText } from './embedder.js';
 import { parseManifest } from './manifest.js';
@@ -257,6 +257,14 @@ export class IndexerService {
       } else if (repo.status === 'ready' && repo.lastIndexed) {
         // Delta indexing: find files modified since last index
         const delta = this.detectDelta(repo.path, repo.lastIndexed);
+        // Files deleted while the daemon was down
+        if (existsSync(repo.path)) {
+          for (const e of await listEntitiesForRepo(this.db, repo.path)) {
+            if (e.kind === 'file' && !existsSync(e.file)) {
+              this.queue.enqueue({ kind: 'file', filePath: e.file, event: 'delete' });
+            }
+          }
+        }
         if (delta.length > 0) {
           log.info({ repo: repo.path, changed: delta.length }, 'delta index on startup');
           for (const filePath of delta) {
@@ -361,6 +369,9 @@ export class IndexerService {
 
   private async fullIndex(repoPath: string): Promise<void> {
     log.info({ repo: repoPath }, 'full index started');
+    // An earlier run that did not finish may have stored a file's entities
+    // but not its relations.
+    const incomplete = (await listRepos(this.db)).find(r => r.path === repoPath)?.status !== 'ready';
     await updateRepoStatus(this.db, repoPath, 'indexing');
 
     try {
@@ -403,6 +414,7 @@ export class IndexerService {
         try {
           const indexed = await this.indexFile(filePath, repoPath, false);
           if (indexed) fileCount++; else skipped++;
+          if (!indexed && incomplete) await this.relinkFile(filePath, repoPath);
         } catch (err) {
           const msg = err instanceof Error ? err.message : String(err);
           log.error({ file: filePath, err: msg }, 'full index: file error (skipping)');
@@ -745,7 +757,7 @@ export class IndexerService {
     cleanFirst: boolean,
   ): Promise<boolean> {
     const parser = getParser(filePath) ?? (basenameParser.handles(filePath) ? basenameParser : null);
-    if (!parser) return false;
+    if (!parser || isGeneratedOrMinified(filePath)) return false;
 
     let source: string;
     try { source = readFileSync(filePath, 'utf8'); }
-- 
2.43.0


From 0ee3969695eb4ef3d168bc14c34793e802b5792b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:05 +0000
Subject: [PATCH 011/145] fix: decode socket data per stream, not per chunk

A multi-byte UTF-8 character split across two chunks was turned into
replacement characters, by the daemon and by both clients.
---
 src/cli/client.ts        | 5 ++++-
 src/daemon/server.ts     | 5 ++++-
 src/mcp/daemon-stream.ts | 9 +++++++--
 3 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/cli/client.ts b/src/cli/client.ts
index 28e2f26..aee0896 100644
--- a/src/cli/client.ts
+++ b/src/cli/client.ts
@@ -1,4 +1,5 @@
 import { createConnection, type Socket } from 'node:net';
+import { StringDecoder } from 'node:string_decoder';
 import type { IpcRequest, IpcResponse } from '../shared/types.js';
 import { PATHS } from '../shared/paths.js';
 
@@ -16,6 +17,8 @@ export async function rpc<T = unknown>(method: string, params: unknown = {}, con
   return new Promise<T>((resolve, reject) => {
     const socket = connect();
     let   buffer = '';
+    // A multi-byte character may be split across two chunks.
+    const decoder = new StringDecoder('utf8');
 
     socket.on('connect', () => {
       // Self-identify to the daemon's attached-client registry (Story s4).
@@ -24,7 +27,7 @@ export async function rpc<T = unknown>(method: string, params: unknown = {}, con
     });
 
     socket.on('data', (chunk: Buffer) => {
-      buffer += chunk.toString();
+      buffer += decoder.write(chunk);
       const lines = buffer.split('\n');
       buffer = lines.pop() ?? '';
 
diff --git a/src/daemon/server.ts b/src/daemon/server.ts
index 5330579..c89181c 100644
--- a/src/daemon/server.ts
+++ b/src/daemon/server.ts
@@ -1,5 +1,6 @@
 import { createServer, type Server, type Socket } from 'node:net';
 import { rmSync } from 'node:fs';
+import { StringDecoder } from 'node:string_decoder';
 import type { AttachedClient, IpcRequest, IpcResponse, IpcStreamMessage } from '../shared/types.js';
 import { PATHS } from '../shared/paths.js';
 import { getLogger } from '../shared/logger.js';
@@ -121,13 +122,15 @@ export class IpcServer {
 
   private handleConnection(socket: Socket): void {
     let buffer = '';
+    // A multi-byte character may be split across two chunks.
+    const decoder = new StringDecoder('utf8');
 
     // Register the connection (Story s4) — 'unknown' until a message identifies it.
     this.conns.set(socket, { id: ++this.connSeq, connectedAt: this.now(), label: 'unknown' });
     socket.on('close', () => { this.conns.delete(socket); });
 
     socket.on('data', (chunk: Buffer) => {
-      buffer += chunk.toString();
+      buffer += decoder.write(chunk);
       const lines = buffer.split('\n');
       buffer = lines.pop() ?? '';
 
diff --git a/src/mcp/daemon-stream.ts b/src/mcp/daemon-stream.ts
index c4c5964..e2e81ab 100644
--- a/src/mcp/daemon-stream.ts
+++ b/src/mcp/daemon-stream.ts
@@ -21,6 +21,7 @@
  */
 
 import { createConnection, type Socket } from 'node:net';
+import { StringDecoder } from 'node:string_decoder';
 import { PATHS } from '../shared/paths.js';
 import { getLogger } from '../shared/logger.js';
 import type { RunWorkflowResult, WorkflowProgress } from '../daemon/workflow-rpc.js';
@@ -86,6 +87,8 @@ export function runWorkflowStream(
 	return new Promise<RunWorkflowStreamResult>((resolve, reject) => {
 		const socket = deps.connect !== undefined ? deps.connect() : createConnection(PATHS.sockFile);
 		let   buffer  = '';
+		// A multi-byte character may be split across two chunks.
+		const decoder = new StringDecoder('utf8');
 		let   settled = false;
 
 		const cleanup = (): void => {
@@ -129,7 +132,7 @@ export function runWorkflowStream(
 		});
 
 		function onData(chunk: Buffer): void {
-			buffer += chunk.toString();
+			buffer += decoder.write(chunk);
 			const lines = buffer.split('\n');
 			buffer = lines.pop() ?? '';   // keep the partial trailing line
 
@@ -203,12 +206,14 @@ function unaryRpc<T>(method: string, params: unknown, deps: UnaryRpcDeps): Promi
 	return new Promise<T>((resolve, reject) => {
 		const socket = deps.connect !== undefined ? deps.connect() : createConnection(PATHS.sockFile);
 		let   buffer = '';
+		// A multi-byte character may be split across two chunks.
+		const decoder = new StringDecoder('utf8');
 
 		socket.on('connect', () => {
 			socket.write(JSON.stringify({ id: _nextId++, method, params, client: { label: 'mcp', pid: process.pid } }) + '\n');
 		});
 		socket.on('data', (chunk: Buffer) => {
-			buffer += chunk.toString();
+			buffer += decoder.write(chunk);
 			const lines = buffer.split('\n');
 			buffer = lines.pop() ?? '';
 			for (const line of lines) {
-- 
2.43.0


From 0d0c8ede7058117a6b63d82464cceab7ff1b1d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:21 +0000
Subject: [PATCH 012/145] fix: answer malformed and inherited-name requests
 with an error

A request line holding JSON null left an unhandled rejection and no
response, and a method named after an Object.prototype member was
dispatched to that member instead of being reported as unknown.
---
 src/daemon/server.ts | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/daemon/server.ts b/src/daemon/server.ts
index c89181c..b3fe474 100644
--- a/src/daemon/server.ts
+++ b/src/daemon/server.ts
@@ -48,6 +48,12 @@ export type StreamHandler = (
 export type RpcHandlers = Record<string, RpcHandler>;
 export type StreamHandlers = Record<string, StreamHandler>;
 
+/** The handler registered under `method` -- never an inherited property
+ *  such as `toString`. */
+function own<T>(handlers: Record<string, T>, method: string): T | undefined {
+  return Object.hasOwn(handlers, method) ? handlers[method] : undefined;
+}
+
 // ---------------------------------------------------------------------------
 // IPC Server
 // ---------------------------------------------------------------------------
@@ -152,6 +158,10 @@ export class IpcServer {
       this.send(socket, { id: -1, error: 'invalid JSON' });
       return;
     }
+    if (typeof request !== 'object' || request === null || Array.isArray(request)) {
+      this.send(socket, { id: -1, error: 'invalid request' });
+      return;
+    }
 
     // Update the connection registry from the (validated) client identity +
     // the method just invoked (Story s4). Untrusted wire input is validated
@@ -171,7 +181,7 @@ export class IpcServer {
     }
 
     // Standard request → response
-    const handler = this.handlers[request.method];
+    const handler = own(this.handlers, request.method);
     if (!handler) {
       this.send(socket, { id: request.id, error: `unknown method: ${request.method}` });
       return;
@@ -187,10 +197,10 @@ export class IpcServer {
   }
 
   private async handleStreamMessage(request: IpcRequest, socket: Socket): Promise<void> {
-    const handler = this.streamHandlers[request.method];
+    const handler = own(this.streamHandlers, request.method);
     if (!handler) {
       // Fall back to standard handler if no stream handler registered
-      const stdHandler = this.handlers[request.method];
+      const stdHandler = own(this.handlers, request.method);
       if (stdHandler) {
         try {
           const result = await stdHandler(request.params);
-- 
2.43.0


From 7547fd5933c43e4d3888fe5442cfb3bc4afe852f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:05 +0000
Subject: [PATCH 013/145] fix: answer every request, also when the result is
 not serialisable

A result or stream frame JSON.stringify rejects was dropped without any
response, and a handler failing with an empty message was answered with
an empty error, which the client reads as success.
---
 src/daemon/server.ts | 35 +++++++++++++++++++++++++++++------
 1 file changed, 29 insertions(+), 6 deletions(-)

diff --git a/src/daemon/server.ts b/src/daemon/server.ts
index b3fe474..590630a 100644
--- a/src/daemon/server.ts
+++ b/src/daemon/server.ts
@@ -48,6 +48,12 @@ export type StreamHandler = (
 export type RpcHandlers = Record<string, RpcHandler>;
 export type StreamHandlers = Record<string, StreamHandler>;
 
+/** Non-empty description of a failure (an empty `error` would read as success). */
+function errorText(err: unknown): string {
+  const msg = err instanceof Error ? err.message : String(err);
+  return msg.length > 0 ? msg : 'unknown error';
+}
+
 /** The handler registered under `method` -- never an inherited property
  *  such as `toString`. */
 function own<T>(handlers: Record<string, T>, method: string): T | undefined {
@@ -191,7 +197,7 @@ export class IpcServer {
       const result = await handler(request.params);
       this.send(socket, { id: request.id, result });
     } catch (err) {
-      const msg = err instanceof Error ? err.message : String(err);
+      const msg = errorText(err);
       this.send(socket, { id: request.id, error: msg });
     }
   }
@@ -206,7 +212,7 @@ export class IpcServer {
           const result = await stdHandler(request.params);
           this.send(socket, { id: request.id, result });
         } catch (err) {
-          const msg = err instanceof Error ? err.message : String(err);
+          const msg = errorText(err);
           this.send(socket, { id: request.id, error: msg });
         }
         return;
@@ -226,10 +232,20 @@ export class IpcServer {
 
     // Stream send function — writes IpcStreamMessage to socket
     // Always override msg.id with the request's id so the client can correlate
+    let broken = false;
     const sendStream = (msg: IpcStreamMessage): void => {
+      if (broken) return;
+      let line: string;
+      try {
+        line = JSON.stringify({ ...msg, id: request.id });
+      } catch (err) {
+        // A frame JSON cannot represent ends the stream with an error.
+        broken = true;
+        line = JSON.stringify({ id: request.id, stream: 'error', data: { error: `frame is not serialisable: ${errorText(err)}`, recoverable: false } });
+      }
       try {
-        const out = { ...msg, id: request.id };
-        socket.write(JSON.stringify(out) + '\n');
+        socket.write(line + '\n');
+        if (broken) abortController.abort();
       } catch {
         // Socket broken — abort the handler
         abortController.abort();
@@ -241,7 +257,7 @@ export class IpcServer {
     } catch (err) {
       // Handler threw — send error stream message if socket is still writable
       if (!abortController.signal.aborted) {
-        const msg = err instanceof Error ? err.message : String(err);
+        const msg = errorText(err);
         sendStream({ id: request.id, stream: 'error', data: { error: msg, recoverable: true } });
       }
     } finally {
@@ -251,8 +267,15 @@ export class IpcServer {
   }
 
   private send(socket: Socket, response: IpcResponse): void {
+    let line: string;
+    try {
+      line = JSON.stringify(response);
+    } catch (err) {
+      // A result JSON cannot represent must not leave the client waiting.
+      line = JSON.stringify({ id: response.id, error: `result is not serialisable: ${errorText(err)}` });
+    }
     try {
-      socket.write(JSON.stringify(response) + '\n');
+      socket.write(line + '\n');
     } catch { /* socket already closed */ }
   }
 }
-- 
2.43.0


From 02e680e3280a9c2e18e460f7a14b51b616e29da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:19 +0000
Subject: [PATCH 014/145] fix: fail a daemon call whose connection closes
 before the response

rpc() and the MCP unary client waited for ever when the daemon went away
in the middle of a request.
---
 src/cli/client.ts        | 3 +++
 src/mcp/daemon-stream.ts | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/src/cli/client.ts b/src/cli/client.ts
index aee0896..3a58cb8 100644
--- a/src/cli/client.ts
+++ b/src/cli/client.ts
@@ -52,5 +52,8 @@ export async function rpc<T = unknown>(method: string, params: unknown = {}, con
         reject(err);
       }
     });
+
+    // No-op once answered: the daemon went away mid-request.
+    socket.on('close', () => reject(new Error('daemon closed the connection before responding')));
   });
 }
diff --git a/src/mcp/daemon-stream.ts b/src/mcp/daemon-stream.ts
index e2e81ab..67444b5 100644
--- a/src/mcp/daemon-stream.ts
+++ b/src/mcp/daemon-stream.ts
@@ -237,6 +237,8 @@ function unaryRpc<T>(method: string, params: unknown, deps: UnaryRpcDeps): Promi
 				reject(err);
 			}
 		});
+		// No-op once answered: the daemon went away mid-request.
+		socket.on('close', () => reject(new Error('daemon closed the connection before responding')));
 	});
 }
 
-- 
2.43.0


From 1b1acaf8f7da7e258d8e48b72ae2868e0d704a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:03 +0000
Subject: [PATCH 015/145] fix: chain report honours an acknowledged stale LLD

The report kept answering refresh-stale ("re-run design.story or
ack-stale") after ack-stale, and for standalone LLDs, although the gates
accept both.
---
 src/workflow/chain.ts | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/workflow/chain.ts b/src/workflow/chain.ts
index 717335a..af4c490 100644
--- a/src/workflow/chain.ts
+++ b/src/workflow/chain.ts
@@ -166,14 +166,17 @@ function readStoryLldStatus(
 		const jsonPath = lldArtifactPaths(repoPath, epicHash, s.id).json;
 		const hasLld = existsSync(jsonPath);
 		let approved = false;
+		let current = false;   // acknowledged, or standalone: no staleness to act on
 		if (hasLld) {
 			try {
 				const raw = readFileSync(jsonPath, 'utf8');
-				const lld = JSON.parse(raw) as { meta: { approvedAt?: string } };
+				const lld = JSON.parse(raw) as { meta: { approvedAt?: string; staleAckedAt?: string; standalone?: boolean } };
 				approved = typeof lld.meta.approvedAt === 'string' && lld.meta.approvedAt.length > 0;
+				current = lld.meta.standalone === true
+					|| (typeof lld.meta.staleAckedAt === 'string' && lld.meta.staleAckedAt.length > 0);
 			} catch { /* malformed — treat as unapproved */ }
 		}
-		const stale = staleness.get(s.id);
+		const stale = current ? undefined : staleness.get(s.id);
 		return {
 			id: s.id, title: s.title,
 			hasLld, approved,
-- 
2.43.0


From b4434dff5d0e5be1534474824602912d6d0ab269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:31 +0000
Subject: [PATCH 016/145] fix: resolve artifacts of a repo below a
 docs/designs-like directory

jsonPathForMd took the first docs/<kind> segment of the path for the
repository's own, so approving an artifact of a repository checked out
under e.g. .../docs/designs/ missed (or hit the wrong) JSON.
---
 src/workflow/gates.ts | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/src/workflow/gates.ts b/src/workflow/gates.ts
index b85756e..3b8bbde 100644
--- a/src/workflow/gates.ts
+++ b/src/workflow/gates.ts
@@ -755,7 +755,7 @@ export function jsonPathForMd(mdPath: string): string {
 		throw new Error(`Expected a .md, .html, or .json path, got '${mdPath}'`);
 	}
 	// Stub artifacts keep md + json side by side, both slug-named.
-	if (mdPath.includes('/docs/stub/')) {
+	if (innermostDocsDir(mdPath)?.dir === STUB_DIR) {
 		return swapExt(mdPath);
 	}
 	// Designs / defines: slug-named md → hash-named json via the marker.
@@ -786,12 +786,20 @@ function repoRootFromDocsPath(p: string): string | undefined {
 	// Every docs artifact dir (defines/designs/plans/builds/specs/reviews) PLUS
 	// the side-by-side stub dir — derived from the storage.ts constants so the
 	// allow-list can't drift (S001).
+	const at = innermostDocsDir(p);
+	return at === undefined ? undefined : p.slice(0, at.start);
+}
+
+/** The docs artifact dir `p` lies in: the LAST one on the path, since the
+ *  repo itself may live below a directory with such a name. */
+function innermostDocsDir(p: string): { readonly dir: string; readonly start: number; readonly end: number } | undefined {
+	let found: { dir: string; start: number; end: number } | undefined;
 	for (const dir of [...DOCS_ARTIFACT_DIRS, STUB_DIR]) {
 		const seg = `/${dir}/`;
-		const i = p.indexOf(seg);
-		if (i >= 0) return p.slice(0, i);
+		const i = p.lastIndexOf(seg);
+		if (i >= 0 && (found === undefined || i > found.start)) found = { dir, start: i, end: i + seg.length };
 	}
-	return undefined;
+	return found;
 }
 
 /** Swap a trailing `.md` / `.html` for `.json`. */
@@ -807,13 +815,7 @@ function swapDocsToArtifacts(p: string): string {
 	// Every docs artifact dir maps into .insrc/artifacts (derived from the
 	// storage.ts constants, S001). STUB_DIR is excluded — its md + json sit
 	// side by side; no swap.
-	for (const dir of DOCS_ARTIFACT_DIRS) {
-		const seg = `/${dir}/`;
-		const i = p.indexOf(seg);
-		if (i >= 0) {
-			return p.slice(0, i) + '/' + ARTIFACTS_DIR + '/' + p.slice(i + seg.length);
-		}
-	}
-	// `docs/stub/*` files keep md + json side by side; no swap.
-	return p;
+	const at = innermostDocsDir(p);
+	if (at === undefined || at.dir === STUB_DIR) return p;
+	return p.slice(0, at.start) + '/' + ARTIFACTS_DIR + '/' + p.slice(at.end);
 }
-- 
2.43.0


From da30a65553998ff36d122fa4a3fe94afaecb8b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:56 +0000
Subject: [PATCH 017/145] fix: dry-run an amendment before approving it

Two amendments proposed against the same HLD state can exclude each
other; approving both made requireApprovedHld throw AmendmentApplyError
for ever. applier.ts documents the dry-run, approval did not do it.
---
 src/cli/services/workflow.ts | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/cli/services/workflow.ts b/src/cli/services/workflow.ts
index a464097..89adb59 100644
--- a/src/cli/services/workflow.ts
+++ b/src/cli/services/workflow.ts
@@ -37,8 +37,10 @@ import {
 	autoPushTasksOnPlan,
 	type AutoPushResult,
 } from '../../workflow/tracker-auto.js';
+import { applyAmendments } from '../../workflow/amendments/applier.js';
 import {
 	listAmendments,
+	listApprovedAmendments,
 	readAmendment,
 	approveAmendment,
 	rejectAmendment,
@@ -262,9 +264,23 @@ export function showAmendment(repoPath: string, amendmentId: string): AmendmentR
 }
 
 export function approveAmendmentById(repoPath: string, amendmentId: string, approvedBy: string): AmendmentRecord {
+	dryRunAmendment(repoPath, amendmentId);
 	return approveAmendment(repoPath, amendmentId, approvedBy);
 }
 
+/** Refuse (`AmendmentApplyError`) to approve an amendment that no longer applies
+ *  on top of the amendments approved since it was proposed: once approved it
+ *  would make every read of the effective HLD fail. */
+function dryRunAmendment(repoPath: string, amendmentId: string): void {
+	let rec: AmendmentRecord;
+	try { rec = readAmendment(repoPath, amendmentId); } catch { return; }   // reported by approveAmendment
+	if (rec.status !== 'pending' || !existsSync(hldArtifactPaths(repoPath, rec.epicHash).json)) return;
+	applyAmendments(
+		readBaseHld(repoPath, rec.epicHash).body,
+		[...listApprovedAmendments(repoPath, rec.epicHash), rec],
+	);
+}
+
 export function rejectAmendmentById(repoPath: string, amendmentId: string, reason: string): AmendmentRecord {
 	return rejectAmendment(repoPath, amendmentId, reason);
 }
-- 
2.43.0


From a12eefd6ce28f6d8dac12701a700b8003189f522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:37 +0000
Subject: [PATCH 018/145] fix: run todo mutations one at a time

---
 src/daemon/todos-rpc.ts | 75 +++++++++++++++++++++++++++++++----------
 1 file changed, 58 insertions(+), 17 deletions(-)

diff --git a/src/daemon/todos-rpc.ts b/src/daemon/todos-rpc.ts
index 121d5c8..f9f4042 100644
--- a/src/daemon/todos-rpc.ts
+++ b/src/daemon/todos-rpc.ts
@@ -151,6 +151,25 @@ export function subscribeToTodosBus(
 // Helpers
 // ---------------------------------------------------------------------------
 
+/** Tail of the mutation queue; never rejects. */
+let mutationTail: Promise<unknown> = Promise.resolve();
+
+/**
+ * Run mutations one at a time. Every mutation reads the list (owner,
+ * parent chain, size caps) and then writes whole rows, so two of them
+ * overlapping would lose updates, resurrect deleted rows or slip past
+ * the guards.
+ */
+function serialised<R>(
+	fn: (db: DbClient, params: unknown) => Promise<R>,
+): (db: DbClient, params: unknown) => Promise<R> {
+	return (db, params) => {
+		const run = mutationTail.then(() => fn(db, params));
+		mutationTail = run.catch(() => undefined);
+		return run;
+	};
+}
+
 function generateId(): string {
 	return randomBytes(16).toString('hex');
 }
@@ -263,7 +282,7 @@ export async function listForSession(db: DbClient, params: unknown): Promise<rea
 // RPC: create
 // ---------------------------------------------------------------------------
 
-export async function create(db: DbClient, params: unknown): Promise<TodoList | TodosRpcError> {
+async function createUnlocked(db: DbClient, params: unknown): Promise<TodoList | TodosRpcError> {
 	const p = (params ?? {}) as Record<string, unknown>;
 	const caller = resolveCaller(params);
 	const sessionId = p['sessionId'];
@@ -368,7 +387,7 @@ export async function create(db: DbClient, params: unknown): Promise<TodoList |
 // RPC: update (list fields)
 // ---------------------------------------------------------------------------
 
-export async function update(db: DbClient, params: unknown): Promise<TodoList | TodosRpcError> {
+async function updateUnlocked(db: DbClient, params: unknown): Promise<TodoList | TodosRpcError> {
 	const caller = resolveCaller(params);
 	const p = (params ?? {}) as Record<string, unknown>;
 	const listId = p['listId'];
@@ -404,11 +423,11 @@ export async function update(db: DbClient, params: unknown): Promise<TodoList |
 // RPC: archive / unarchive
 // ---------------------------------------------------------------------------
 
-export async function archive(db: DbClient, params: unknown): Promise<TodoList | TodosRpcError> {
+async function archiveUnlocked(db: DbClient, params: unknown): Promise<TodoList | TodosRpcError> {
 	return applyListStatus(db, params, 'archived', 'listArchived');
 }
 
-export async function unarchive(db: DbClient, params: unknown): Promise<TodoList | TodosRpcError> {
+async function unarchiveUnlocked(db: DbClient, params: unknown): Promise<TodoList | TodosRpcError> {
 	return applyListStatus(db, params, 'active', 'listUpdated');
 }
 
@@ -441,7 +460,7 @@ async function applyListStatus(
 // RPC: transfer / reparent
 // ---------------------------------------------------------------------------
 
-export async function transfer(db: DbClient, params: unknown): Promise<TodoList | TodosRpcError> {
+async function transferUnlocked(db: DbClient, params: unknown): Promise<TodoList | TodosRpcError> {
 	const caller = resolveCaller(params);
 	const p = (params ?? {}) as Record<string, unknown>;
 	const listId = p['listId'];
@@ -461,7 +480,7 @@ export async function transfer(db: DbClient, params: unknown): Promise<TodoList
 	return updated;
 }
 
-export async function reparent(db: DbClient, params: unknown): Promise<TodoList | TodosRpcError> {
+async function reparentUnlocked(db: DbClient, params: unknown): Promise<TodoList | TodosRpcError> {
 	const caller = resolveCaller(params);
 	const p = (params ?? {}) as Record<string, unknown>;
 	const listId = p['listId'];
@@ -488,7 +507,7 @@ export async function reparent(db: DbClient, params: unknown): Promise<TodoList
 // RPC: items
 // ---------------------------------------------------------------------------
 
-export async function addItem(db: DbClient, params: unknown): Promise<TodoItem | TodosRpcError> {
+async function addItemUnlocked(db: DbClient, params: unknown): Promise<TodoItem | TodosRpcError> {
 	const caller = resolveCaller(params);
 	const p = (params ?? {}) as Record<string, unknown>;
 	const listId = p['listId'];
@@ -551,7 +570,7 @@ export async function addItem(db: DbClient, params: unknown): Promise<TodoItem |
 	return item;
 }
 
-export async function updateItem(db: DbClient, params: unknown): Promise<TodoItem | TodosRpcError> {
+async function updateItemUnlocked(db: DbClient, params: unknown): Promise<TodoItem | TodosRpcError> {
 	const caller = resolveCaller(params);
 	const p = (params ?? {}) as Record<string, unknown>;
 	const itemId = p['itemId'];
@@ -599,7 +618,7 @@ export async function updateItem(db: DbClient, params: unknown): Promise<TodoIte
 	return updated;
 }
 
-export async function reorderItem(db: DbClient, params: unknown): Promise<TodoItem | TodosRpcError> {
+async function reorderItemUnlocked(db: DbClient, params: unknown): Promise<TodoItem | TodosRpcError> {
 	const caller = resolveCaller(params);
 	const p = (params ?? {}) as Record<string, unknown>;
 	const itemId = p['itemId'];
@@ -638,7 +657,7 @@ export async function reorderItem(db: DbClient, params: unknown): Promise<TodoIt
 	return updated;
 }
 
-export async function removeItem(db: DbClient, params: unknown): Promise<{ ok: true } | TodosRpcError> {
+async function removeItemUnlocked(db: DbClient, params: unknown): Promise<{ ok: true } | TodosRpcError> {
 	const caller = resolveCaller(params);
 	const p = (params ?? {}) as Record<string, unknown>;
 	const itemId = p['itemId'];
@@ -658,7 +677,7 @@ export async function removeItem(db: DbClient, params: unknown): Promise<{ ok: t
 	return { ok: true };
 }
 
-export async function clearCompleted(db: DbClient, params: unknown): Promise<TodoList | TodosRpcError> {
+async function clearCompletedUnlocked(db: DbClient, params: unknown): Promise<TodoList | TodosRpcError> {
 	const caller = resolveCaller(params);
 	const p = (params ?? {}) as Record<string, unknown>;
 	const listId = p['listId'];
@@ -700,7 +719,7 @@ async function maybeAutoCompleteList(db: DbClient, listId: string): Promise<void
 // RPC: cleanup (system-only / discard)
 // ---------------------------------------------------------------------------
 
-export async function cleanup(
+async function cleanupUnlocked(
 	db: DbClient,
 	params: unknown,
 ): Promise<{ deletedListCount: number; deletedItemCount: number; dryRun: boolean } | TodosRpcError> {
@@ -877,7 +896,7 @@ async function executeCleanup(
  * and editor panes prune their caches. Returns `{ ok: true }` on
  * success.
  */
-export async function deleteList(
+async function deleteListUnlocked(
 	db: DbClient,
 	params: unknown,
 ): Promise<{ ok: true } | TodosRpcError> {
@@ -928,7 +947,7 @@ async function loadListForItem(
 	return todos.getList(db, item.listId);
 }
 
-export async function addComment(
+async function addCommentUnlocked(
 	db: DbClient,
 	params: unknown,
 ): Promise<TodoComment | CommentRpcError> {
@@ -966,7 +985,7 @@ export async function addComment(
 	return comment;
 }
 
-export async function editComment(
+async function editCommentUnlocked(
 	db: DbClient,
 	params: unknown,
 ): Promise<TodoComment | CommentRpcError> {
@@ -995,7 +1014,7 @@ export async function editComment(
 	return updated;
 }
 
-export async function deleteCommentRpc(
+async function deleteCommentRpcUnlocked(
 	db: DbClient,
 	params: unknown,
 ): Promise<{ ok: true } | CommentRpcError> {
@@ -1018,7 +1037,7 @@ export async function deleteCommentRpc(
 	return { ok: true };
 }
 
-export async function ackComment(
+async function ackCommentUnlocked(
 	db: DbClient,
 	params: unknown,
 ): Promise<TodoComment | CommentRpcError> {
@@ -1132,6 +1151,28 @@ export async function forwardToAgent(
 	return { items: responseItems };
 }
 
+// ---------------------------------------------------------------------------
+// Serialised mutation surface
+// ---------------------------------------------------------------------------
+
+export const create = serialised(createUnlocked);
+export const update = serialised(updateUnlocked);
+export const archive = serialised(archiveUnlocked);
+export const unarchive = serialised(unarchiveUnlocked);
+export const transfer = serialised(transferUnlocked);
+export const reparent = serialised(reparentUnlocked);
+export const addItem = serialised(addItemUnlocked);
+export const updateItem = serialised(updateItemUnlocked);
+export const reorderItem = serialised(reorderItemUnlocked);
+export const removeItem = serialised(removeItemUnlocked);
+export const clearCompleted = serialised(clearCompletedUnlocked);
+export const cleanup = serialised(cleanupUnlocked);
+export const deleteList = serialised(deleteListUnlocked);
+export const addComment = serialised(addCommentUnlocked);
+export const editComment = serialised(editCommentUnlocked);
+export const deleteCommentRpc = serialised(deleteCommentRpcUnlocked);
+export const ackComment = serialised(ackCommentUnlocked);
+
 // ---------------------------------------------------------------------------
 // RPC: subscribe (streaming)
 // ---------------------------------------------------------------------------
-- 
2.43.0


From a8cd8673262ff500b19dc1749e373c2d8a97c632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:37 +0000
Subject: [PATCH 019/145] fix: count each list once when a cleanup repeats a
 session id

---
 src/daemon/todos-rpc.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/daemon/todos-rpc.ts b/src/daemon/todos-rpc.ts
index f9f4042..bc2218e 100644
--- a/src/daemon/todos-rpc.ts
+++ b/src/daemon/todos-rpc.ts
@@ -825,7 +825,7 @@ async function executeCleanup(
 	let candidates: readonly TodoList[];
 	if (query.sessionIds !== undefined && query.sessionIds.length > 0) {
 		const collected: TodoList[] = [];
-		for (const sid of query.sessionIds) {
+		for (const sid of new Set(query.sessionIds)) {
 			const lists = await todos.listListsBySession(db, sid, { includeArchived: true });
 			collected.push(...lists);
 		}
-- 
2.43.0


From 1b95caf5b8c57e1045b2126b040ad7bc216f18a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:26 +0000
Subject: [PATCH 020/145] fix: renumber todo items when an order gap is
 exhausted

---
 src/daemon/todos-rpc.ts | 21 ++++++++++++++-------
 src/db/todos.ts         | 12 ++++++++++++
 2 files changed, 26 insertions(+), 7 deletions(-)

diff --git a/src/daemon/todos-rpc.ts b/src/daemon/todos-rpc.ts
index bc2218e..cd97c89 100644
--- a/src/daemon/todos-rpc.ts
+++ b/src/daemon/todos-rpc.ts
@@ -44,7 +44,7 @@ import type {
 	TodoListStatus, TodoOwner, TodoSnapshot, TodoStreamEvent,
 	TodoStreamEventKind,
 } from '../shared/todos.js';
-import { TODO_LIMITS, betweenOrderKeys } from '../shared/todos.js';
+import { ORDER_KEY_EPSILON, TODO_LIMITS, betweenOrderKeys } from '../shared/todos.js';
 import { isAgentFamily } from '../shared/agent-registry.js';
 import * as todos from '../db/todos.js';
 import { getLogger } from '../shared/logger.js';
@@ -507,6 +507,17 @@ async function reparentUnlocked(db: DbClient, params: unknown): Promise<TodoList
 // RPC: items
 // ---------------------------------------------------------------------------
 
+/** Order key right after `siblings[idx]`; renumbers the siblings first when the gap is exhausted. */
+async function orderKeyAfter(db: DbClient, siblings: readonly TodoItem[], idx: number): Promise<number> {
+	const prev = siblings[idx]!.order;
+	const next = siblings[idx + 1]?.order;
+	if (next !== undefined && next - prev < ORDER_KEY_EPSILON) {
+		await todos.renumberItems(db, siblings.map(it => it.id));
+		return betweenOrderKeys(idx, idx + 1);
+	}
+	return betweenOrderKeys(prev, next);
+}
+
 async function addItemUnlocked(db: DbClient, params: unknown): Promise<TodoItem | TodosRpcError> {
 	const caller = resolveCaller(params);
 	const p = (params ?? {}) as Record<string, unknown>;
@@ -546,9 +557,7 @@ async function addItemUnlocked(db: DbClient, params: unknown): Promise<TodoItem
 		if (idx < 0) {
 			return { error: 'invalid_ids', reason: `insertAfterItemId '${insertAfterItemId}' not found in list` };
 		}
-		const prev = existing[idx]!.order;
-		const next = idx + 1 < existing.length ? existing[idx + 1]!.order : undefined;
-		orderKey = betweenOrderKeys(prev, next);
+		orderKey = await orderKeyAfter(db, existing, idx);
 	} else {
 		const last = existing.length > 0 ? existing[existing.length - 1]!.order : undefined;
 		orderKey = betweenOrderKeys(last, undefined);
@@ -644,9 +653,7 @@ async function reorderItemUnlocked(db: DbClient, params: unknown): Promise<TodoI
 		if (idx < 0) {
 			return { error: 'invalid_ids', reason: `insertAfterItemId '${after}' not found in list` };
 		}
-		const prev = siblings[idx]!.order;
-		const next = idx + 1 < siblings.length ? siblings[idx + 1]!.order : undefined;
-		orderKey = betweenOrderKeys(prev, next);
+		orderKey = await orderKeyAfter(db, siblings, idx);
 	} else {
 		return { error: 'invalid_ids', reason: 'insertAfterItemId must be string or null' };
 	}
diff --git a/src/db/todos.ts b/src/db/todos.ts
index cabf98b..d20fe41 100644
--- a/src/db/todos.ts
+++ b/src/db/todos.ts
@@ -494,6 +494,18 @@ export async function updateItem(
 	return refreshed;
 }
 
+/** Rewrite the order keys of `itemIds` to 0..n-1 in the given order. */
+export async function renumberItems(_db: DbClient, itemIds: readonly string[]): Promise<void> {
+	await withWriteTxn(s => {
+		itemIds.forEach((itemId, order) => {
+			const buf = s.todoItem.get(itemId);
+			if (buf === undefined) return;
+			const cur = decodeTodoItemRow(buf as Buffer);
+			s.todoItem.put(itemId, encodeTodoItemRow({ ...cur, order }));
+		});
+	});
+}
+
 export async function transferList(
 	_db: DbClient,
 	listId: string,
-- 
2.43.0


From ebcacb8e3fb688f6c6cfbef6d5eddb832bd9a242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:06 +0000
Subject: [PATCH 021/145] fix: acknowledging a comment announces the
 acknowledged state

---
 src/daemon/todos-rpc.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/daemon/todos-rpc.ts b/src/daemon/todos-rpc.ts
index cd97c89..14612b6 100644
--- a/src/daemon/todos-rpc.ts
+++ b/src/daemon/todos-rpc.ts
@@ -1067,7 +1067,8 @@ async function ackCommentUnlocked(
 		return { error: 'comment_ack_not_owner' };
 	}
 	const updated = await todos.updateComment(db, commentId, { agentAcknowledged: true });
-	emit('commentUpdated', list);
+	const refreshed = await todos.getList(db, list.id);
+	if (refreshed !== null) { emit('commentUpdated', refreshed); }
 	return updated;
 }
 
-- 
2.43.0


From bd8b193c2af201a2798aadd985afc22799bff0a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:41 +0000
Subject: [PATCH 022/145] fix: keep the paused status of a session

---
 src/db/conversations.ts | 5 +++--
 src/db/graph/codec.ts   | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/db/conversations.ts b/src/db/conversations.ts
index 15fdbe6..1be4515 100644
--- a/src/db/conversations.ts
+++ b/src/db/conversations.ts
@@ -173,7 +173,7 @@ function rowToTurnRecord(row: TurnRow): TurnRecord {
 }
 
 function coerceStatus(s: RowSessionStatus): SessionStatus {
-	// Codec SessionStatus is 'active' | 'archived' | 'expired'; the
+	// Codec SessionStatus is 'active' | 'paused' | 'archived' | 'expired'; the
 	// public SessionStatus is 'active' | 'paused' | 'completed' |
 	// 'discarded'. Map between them defensively (the daemon's chat
 	// flow always writes one of the public values; codec's "archived"
@@ -181,6 +181,7 @@ function coerceStatus(s: RowSessionStatus): SessionStatus {
 	// pruning path).
 	switch (s) {
 		case 'active':   return 'active';
+		case 'paused':   return 'paused';
 		case 'archived': return 'completed';
 		case 'expired':  return 'discarded';
 		default:         return s as unknown as SessionStatus;
@@ -190,7 +191,7 @@ function coerceStatus(s: RowSessionStatus): SessionStatus {
 function publicToRowStatus(s: SessionStatus): RowSessionStatus {
 	switch (s) {
 		case 'active':    return 'active';
-		case 'paused':    return 'active'; // closest LMDB-side encoding
+		case 'paused':    return 'paused';
 		case 'completed': return 'archived';
 		case 'discarded': return 'expired';
 		default:          return 'active';
diff --git a/src/db/graph/codec.ts b/src/db/graph/codec.ts
index 7676544..5b9f0e3 100644
--- a/src/db/graph/codec.ts
+++ b/src/db/graph/codec.ts
@@ -288,7 +288,7 @@ export const decodePlanStepRow = (b: Buffer): PlanStepRow => decode(b);
 // Conversation rows
 // ---------------------------------------------------------------------------
 
-export type SessionStatus = 'active' | 'archived' | 'expired';
+export type SessionStatus = 'active' | 'paused' | 'archived' | 'expired';
 export type SessionTier   = 'hot' | 'warm' | 'cold' | 'archive';
 
 export interface SessionRow {
-- 
2.43.0


From 62a19e307fbf97de11a00467ccdc8ba3cf2b7534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:41 +0000
Subject: [PATCH 023/145] fix: a turn saved again under another repo leaves its
 old repo

---
 src/db/conversations.ts | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/db/conversations.ts b/src/db/conversations.ts
index 1be4515..b071c55 100644
--- a/src/db/conversations.ts
+++ b/src/db/conversations.ts
@@ -318,6 +318,13 @@ export async function addCompactedTurns(_db: DbClient, turns: TurnRecord[]): Pro
 
 function writeTurnInTxn(s: GraphStore, row: TurnRow): void {
 	const key = encodeConversationTurnKey(row.sessionId, row.idx);
+	const prev = s.conversationTurn.get(key);
+	if (prev !== undefined) {
+		const old = decodeTurnRow(prev as Buffer);
+		if (old.repo !== '' && old.repo !== row.repo) {
+			s.conversationTurnByRepo.remove(encodeConvTurnByRepoKey(old.repo, old.id), Buffer.alloc(0));
+		}
+	}
 	s.conversationTurn.put(key, encodeTurnRow(row));
 	if (row.repo !== '') {
 		const idxKey = encodeConvTurnByRepoKey(row.repo, row.id);
-- 
2.43.0


From 1b563dfb757788523b3bbad51ebdf4bf3c948316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:41 +0000
Subject: [PATCH 024/145] fix: pruning a session drops its summary vector

---
 src/db/conversations.ts | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/db/conversations.ts b/src/db/conversations.ts
index b071c55..043c10c 100644
--- a/src/db/conversations.ts
+++ b/src/db/conversations.ts
@@ -692,6 +692,9 @@ export async function pruneConversations(
 		for (const id of expiredIds) s.conversationSession.remove(id);
 		for (const id of cappedIds)  s.conversationSession.remove(id);
 	});
+	// Drop the summary vectors too: left behind they use up search hits.
+	const { deleteSessionVecsByIds } = await import('./lance/session-vec.js');
+	await deleteSessionVecsByIds([...expiredIds, ...cappedIds]);
 	return { expired: expiredIds.length, capped: cappedIds.length };
 }
 
-- 
2.43.0


From b0cc3164ac42294eb35e60b938d7b7e50314ea9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:41 +0000
Subject: [PATCH 025/145] fix: do not seed from a session discarded after it
 was embedded

---
 src/db/conversations.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/db/conversations.ts b/src/db/conversations.ts
index 043c10c..0f1d9e6 100644
--- a/src/db/conversations.ts
+++ b/src/db/conversations.ts
@@ -753,7 +753,9 @@ export async function seedFromPrior(
 	for (const h of hits) {
 		const buf = store.conversationSession.get(h.id);
 		if (buf === undefined) continue;
-		out.push(rowToSessionRecord(decodeSessionRow(buf as Buffer)));
+		const row = decodeSessionRow(buf as Buffer);
+		if (row.status === 'expired') continue; // discarded after its vector was written
+		out.push(rowToSessionRecord(row));
 	}
 	out.sort((a, b) => b.createdAt.localeCompare(a.createdAt));
 	return out;
-- 
2.43.0


From c750f2236828136176c43a440225b17dd6db7412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:41 +0000
Subject: [PATCH 026/145] fix: compaction keeps turns without a repo without
 one

---
 src/db/compaction.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/db/compaction.ts b/src/db/compaction.ts
index d9c75d3..8192dfc 100644
--- a/src/db/compaction.ts
+++ b/src/db/compaction.ts
@@ -94,7 +94,7 @@ export async function compactConversations(
   // Group by repo for per-repo operations
   const byRepo = new Map<string, TurnRecord[]>();
   for (const t of allTurns) {
-    const repo = t.repo || '__unknown__';
+    const repo = t.repo;
     if (!byRepo.has(repo)) byRepo.set(repo, []);
     byRepo.get(repo)!.push(t);
   }
-- 
2.43.0


From 2d17f30fa36ec22b62f4db8d64067b2d2722e2ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:53 +0000
Subject: [PATCH 027/145] fix: directives survive every compaction step

---
 src/db/compaction.ts | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/db/compaction.ts b/src/db/compaction.ts
index 8192dfc..39365b1 100644
--- a/src/db/compaction.ts
+++ b/src/db/compaction.ts
@@ -121,7 +121,9 @@ export async function compactConversations(
     }
 
     // Step 2: Time-based tiering (skip directives and already-compacted)
-    const nonDirectives = repoTurns.filter(t => (t.type ?? 'turn') === 'turn');
+    const reclassified = new Set(toDelete);
+    const nonDirectives = repoTurns.filter(t =>
+      (t.type ?? 'turn') === 'turn' && !reclassified.has(`${t.sessionId}:${t.idx}`));
 
     for (const t of nonDirectives) {
       const created = new Date(t.compactedAt || '').getTime() || parseCreatedAt(t);
@@ -166,8 +168,7 @@ export async function compactConversations(
     }
 
     // Step 3: Semantic clustering (cold tier)
-    const coldTurns = repoTurns.filter(t => {
-      if ((t.type ?? 'turn') !== 'turn') return false;
+    const coldTurns = nonDirectives.filter(t => {
       const created = parseCreatedAt(t);
       return created >= coldCutoff && created < warmCutoff;
     });
@@ -187,8 +188,7 @@ export async function compactConversations(
     }
 
     // Step 4: Archive collapse (group by session)
-    const archiveTurns = repoTurns.filter(t => {
-      if ((t.type ?? 'turn') !== 'turn') return false;
+    const archiveTurns = nonDirectives.filter(t => {
       const created = parseCreatedAt(t);
       return created < coldCutoff;
     });
@@ -271,7 +271,7 @@ export async function compactConversations(
     // Step 6: Cross-tier dedup (strict threshold 0.92)
     const allRemaining = repoTurns.filter(t => {
       const id = `${t.sessionId}:${t.idx}`;
-      return !toDelete.includes(id);
+      return !toDelete.includes(id) && t.type !== 'directive';
     });
 
     for (let i = 0; i < allRemaining.length; i++) {
-- 
2.43.0


From 2d0c8ad87ab09782ce49485579fc0363e9d7a6d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:53 +0000
Subject: [PATCH 028/145] fix: an archive summary does not overwrite a
 surviving entry

---
 src/db/compaction.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/db/compaction.ts b/src/db/compaction.ts
index 39365b1..e0d3470 100644
--- a/src/db/compaction.ts
+++ b/src/db/compaction.ts
@@ -216,7 +216,8 @@ export async function compactConversations(
 
       toAdd.push({
         sessionId,
-        idx: 0,
+        // Reuse the slot of a collapsed turn: idx 0 may hold a surviving entry.
+        idx: sessionTurns[0]!.idx,
         user: 'Session summary',
         assistant: summary,
         entities: entityUnion,
-- 
2.43.0


From bedd0c8929504318cdc9704ccf82464d94cfa7dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:53 +0000
Subject: [PATCH 029/145] fix: the directive cap also applies to directives
 found in the same run

---
 src/db/compaction.ts | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/db/compaction.ts b/src/db/compaction.ts
index e0d3470..3dbb1f7 100644
--- a/src/db/compaction.ts
+++ b/src/db/compaction.ts
@@ -264,6 +264,8 @@ export async function compactConversations(
       );
       const excess = sorted.slice(0, repoDirectives.length - maxDirectives);
       for (const t of excess) {
+        const pending = toAdd.indexOf(t);
+        if (pending >= 0) toAdd.splice(pending, 1);
         toDelete.push(`${t.sessionId}:${t.idx}`);
         result.capped++;
       }
-- 
2.43.0


From 45b4a8b9b9eba0d7fa0c28c39f9590e4e1b72357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:53 +0000
Subject: [PATCH 030/145] fix: compaction writes replacements before deleting
 the originals

---
 src/db/compaction.ts | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/db/compaction.ts b/src/db/compaction.ts
index 3dbb1f7..90c0280 100644
--- a/src/db/compaction.ts
+++ b/src/db/compaction.ts
@@ -300,15 +300,20 @@ export async function compactConversations(
     }
   }
 
-  // Deduplicate toDelete
-  const uniqueDeletes = [...new Set(toDelete)];
+  // Entries rewritten in place are overwritten by the add, not deleted.
+  const rewritten = new Set(toAdd.map(t => `${t.sessionId}:${t.idx}`));
+  const uniqueDeletes = [...new Set(toDelete)].filter(id => !rewritten.has(id));
 
   if (dryRun) {
     log.info({ ...result, deletions: uniqueDeletes.length, additions: toAdd.length }, 'compaction dry run');
     return result;
   }
 
-  // Apply mutations
+  // Apply mutations: additions first, so an interruption never loses the
+  // content of a turn whose replacement has not been written yet.
+  if (toAdd.length > 0) {
+    await addCompactedTurns(db, toAdd);
+  }
   if (uniqueDeletes.length > 0) {
     // Delete in batches to avoid huge IN clauses
     const batchSize = 100;
@@ -317,10 +322,6 @@ export async function compactConversations(
     }
   }
 
-  if (toAdd.length > 0) {
-    await addCompactedTurns(db, toAdd);
-  }
-
   log.info({ ...result }, 'compaction complete');
   return result;
 }
-- 
2.43.0


From 8d3cae8e9e2323e0346e78cd839859902191a346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:33 +0000
Subject: [PATCH 031/145] fix: deleting the sessions of a repo drops the
 vectors of all their turns

---
 src/db/conversations.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/db/conversations.ts b/src/db/conversations.ts
index 0f1d9e6..a6dd264 100644
--- a/src/db/conversations.ts
+++ b/src/db/conversations.ts
@@ -591,8 +591,9 @@ export async function deleteSessionsForRepo(_db: DbClient, repo: string): Promis
 	});
 	// Phase 3.3 cascade: drop Lance rows in bulk by repo
 	const { deleteSessionVecsForRepo } = await import('./lance/session-vec.js');
-	const { deleteTurnVecsForRepo }    = await import('./lance/turn-vec.js');
+	const { deleteTurnVecsBySessionId, deleteTurnVecsForRepo } = await import('./lance/turn-vec.js');
 	await deleteSessionVecsForRepo(repo);
+	for (const id of ids) await deleteTurnVecsBySessionId(id);
 	await deleteTurnVecsForRepo(repo);
 }
 
-- 
2.43.0


From ebfa66cec43932343c2c795fe6ba6e8107bb5c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:31 +0000
Subject: [PATCH 032/145] fix: compaction does not bring back turns deleted
 while it ran

---
 src/db/compaction.ts    | 13 +++++++++----
 src/db/conversations.ts | 16 ++++++++++++++--
 2 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/src/db/compaction.ts b/src/db/compaction.ts
index 90c0280..48358dd 100644
--- a/src/db/compaction.ts
+++ b/src/db/compaction.ts
@@ -311,14 +311,19 @@ export async function compactConversations(
 
   // Apply mutations: additions first, so an interruption never loses the
   // content of a turn whose replacement has not been written yet.
+  // Entries whose turn was deleted meanwhile are not brought back; what
+  // they would have replaced stays for the next run.
+  let deletes = uniqueDeletes;
   if (toAdd.length > 0) {
-    await addCompactedTurns(db, toAdd);
+    const skipped = await addCompactedTurns(db, toAdd, { onlyReplace: true });
+    const kept = new Set(skipped.flatMap(t => t.sourceIds ?? []));
+    deletes = deletes.filter(id => !kept.has(id));
   }
-  if (uniqueDeletes.length > 0) {
+  if (deletes.length > 0) {
     // Delete in batches to avoid huge IN clauses
     const batchSize = 100;
-    for (let i = 0; i < uniqueDeletes.length; i += batchSize) {
-      await deleteTurnsByIds(db, uniqueDeletes.slice(i, i + batchSize));
+    for (let i = 0; i < deletes.length; i += batchSize) {
+      await deleteTurnsByIds(db, deletes.slice(i, i + batchSize));
     }
   }
 
diff --git a/src/db/conversations.ts b/src/db/conversations.ts
index a6dd264..8e3da03 100644
--- a/src/db/conversations.ts
+++ b/src/db/conversations.ts
@@ -269,8 +269,14 @@ export async function saveTurn(_db: DbClient, turn: TurnRecord): Promise<void> {
 	}
 }
 
-export async function addCompactedTurns(_db: DbClient, turns: TurnRecord[]): Promise<void> {
-	if (turns.length === 0) return;
+/** Returns the entries that were not written (only with `onlyReplace`: those whose slot is empty). */
+export async function addCompactedTurns(
+	_db: DbClient,
+	turns: TurnRecord[],
+	opts: { onlyReplace?: boolean } = {},
+): Promise<TurnRecord[]> {
+	const skipped: TurnRecord[] = [];
+	if (turns.length === 0) return skipped;
 	const now = Date.now();
 	const lanceWrites: Array<{
 		id: string; embedding: Float32Array;
@@ -279,6 +285,11 @@ export async function addCompactedTurns(_db: DbClient, turns: TurnRecord[]): Pro
 	await withWriteTxn(s => {
 		for (const t of turns) {
 			const id = turnIdFor(t.sessionId, t.idx);
+			if (opts.onlyReplace === true
+				&& s.conversationTurn.get(encodeConversationTurnKey(t.sessionId, t.idx)) === undefined) {
+				skipped.push(t);
+				continue;
+			}
 			const type = coerceTurnType(t.type ?? 'merged');
 			const tier = coerceTier(t.tier ?? 'cold');
 			const row: TurnRow = {
@@ -314,6 +325,7 @@ export async function addCompactedTurns(_db: DbClient, turns: TurnRecord[]): Pro
 		const { writeTurnEmbeddings } = await import('./lance/turn-vec.js');
 		await writeTurnEmbeddings(lanceWrites);
 	}
+	return skipped;
 }
 
 function writeTurnInTxn(s: GraphStore, row: TurnRow): void {
-- 
2.43.0


From 75032d5eea02381283667f5b98c7a9e7e43fa659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:17 +0000
Subject: [PATCH 033/145] fix: a dot inside a word does not cut a directive
 short

---
 src/db/directives.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/db/directives.ts b/src/db/directives.ts
index 0b974fb..b904ca5 100644
--- a/src/db/directives.ts
+++ b/src/db/directives.ts
@@ -70,7 +70,8 @@ export function extractDirectiveText(
   assistantResponse: string,
 ): string {
   // Split message into sentences and keep directive-matching ones
-  const sentences = userMessage.split(/[.!?\n]+/).filter(s => s.trim().length > 5);
+  // (a dot inside a word, as in ".js" or "v1.2", does not end a sentence)
+  const sentences = userMessage.split(/[.!?]+(?=\s|$)|\n+/).filter(s => s.trim().length > 5);
   const directiveSentences = sentences.filter(s => {
     let sentenceScore = 0;
     for (const { pattern, weight } of DIRECTIVE_PATTERNS) {
-- 
2.43.0


From 17fa735956e28a6efb230a7841c23540da2e61a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:03 +0000
Subject: [PATCH 034/145] fix: an entry removed as a duplicate no longer
 removes others

---
 src/db/compaction.ts | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/db/compaction.ts b/src/db/compaction.ts
index 48358dd..5f772b9 100644
--- a/src/db/compaction.ts
+++ b/src/db/compaction.ts
@@ -295,6 +295,7 @@ export async function compactConversations(
           const bTime = parseCreatedAt(b);
           toDelete.push(aTime < bTime ? aId : bId);
           result.deduped++;
+          if (aTime < bTime) break; // `a` is gone: nothing else duplicates it
         }
       }
     }
-- 
2.43.0


From f9b17316f72fb6de594eb30bc14019d55ae67f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:08 +0000
Subject: [PATCH 035/145] fix: a step placeholder resolves own properties only

---
 src/workflow/executor.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/workflow/executor.ts b/src/workflow/executor.ts
index 682ca41..c9b338c 100644
--- a/src/workflow/executor.ts
+++ b/src/workflow/executor.ts
@@ -396,7 +396,7 @@ function maybeResolvePlaceholder(
 	if (m === null) return s;
 	const stepId = `s${m[1]!}`;
 	const accessor = m[2];
-	if (!(stepId in outputs)) {
+	if (!Object.hasOwn(outputs, stepId)) {
 		throw new Error(
 			`substitutePlaceholders: '${s}' references unknown step '${stepId}'`,
 		);
@@ -447,7 +447,7 @@ function accessValue(root: unknown, accessor: string, original: string): unknown
 			cur = cur[idx];
 		} else if (typeof cur === 'object') {
 			const rec = cur as Record<string, unknown>;
-			if (!(p in rec)) {
+			if (!Object.hasOwn(rec, p)) {
 				throw new Error(
 					`substitutePlaceholders: '${original}' — no key '${p}'`,
 				);
-- 
2.43.0


From ff9924cabf83fbf3f1848176cae9cb37b94b473a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:35 +0000
Subject: [PATCH 036/145] fix: a run ends with an error result when finalize
 throws or a placeholder cannot be resolved

---
 src/workflow/executor.ts | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/src/workflow/executor.ts b/src/workflow/executor.ts
index c9b338c..5cdc2c6 100644
--- a/src/workflow/executor.ts
+++ b/src/workflow/executor.ts
@@ -166,7 +166,15 @@ export async function resumeRun(
 			false,
 		);
 	}
-	const runner = getRunner(state.plan.workflow, pause.runner);
+	const runner = safeGetRunner(state.plan.workflow, pause.runner);
+	if (runner === null) {
+		return errorTick(
+			pause.stepId,
+			'no-runner',
+			`workflow '${state.plan.workflow}' has no runner '${pause.runner}'`,
+			false,
+		);
+	}
 	if (runner.finalize === undefined) {
 		return errorTick(
 			pause.stepId,
@@ -175,7 +183,8 @@ export async function resumeRun(
 			false,
 		);
 	}
-	const params = substitutePlaceholders(step.params, state.stepOutputs);
+	const params = safeSubstitute(step, state.stepOutputs);
+	if (typeof params === 'string') return errorTick(step.id, 'bad-params', params, false);
 	const ctx: StepRunnerContext = makeCtx({
 		intent:      state.intent,
 		plan:        state.plan,
@@ -184,7 +193,14 @@ export async function resumeRun(
 		params,
 	}, deps);
 	const finalize: StepRunnerFinalize = runner.finalize;
-	const result = await finalize(llmResponse, pause.preparedBlob, ctx);
+	let result: Awaited<ReturnType<StepRunnerFinalize>>;
+	try {
+		result = await finalize(llmResponse, pause.preparedBlob, ctx);
+	} catch (err) {
+		const msg = err instanceof Error ? err.message : String(err);
+		log.warn({ workflow: state.plan.workflow, step: step.id, err: msg }, 'finalize threw');
+		return errorTick(step.id, 'runner-threw', msg, false);
+	}
 	if (result.type === 'error') {
 		return errorTick(step.id, result.code, result.message, result.retryable);
 	}
@@ -254,7 +270,8 @@ async function runFrom(state: ExecutorState, slug: string, deps: ExecutorDeps =
 	const outputs = { ...state.stepOutputs };
 	while (i < state.plan.steps.length) {
 		const step = state.plan.steps[i]!;
-		const params = substitutePlaceholders(step.params, outputs);
+		const params = safeSubstitute(step, outputs);
+		if (typeof params === 'string') return errorTick(step.id, 'bad-params', params, false);
 		const runner = safeGetRunner(state.plan.workflow, step.runner);
 		if (runner === null) {
 			return errorTick(
@@ -334,6 +351,12 @@ function safeGetRunner(workflow: string, runnerId: string): StepRunner | null {
 	catch { return null; }
 }
 
+/** Substituted params, or the reason why they cannot be resolved. */
+function safeSubstitute(step: WorkflowStep, outputs: Readonly<Record<string, unknown>>): Record<string, unknown> | string {
+	try { return substitutePlaceholders(step.params, outputs); }
+	catch (err) { return err instanceof Error ? err.message : String(err); }
+}
+
 function errorTick(
 	stepId:    string,
 	code:      string,
-- 
2.43.0


From a16e89d2d93117bacafd3cf519629d74e64d071c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:52 +0000
Subject: [PATCH 037/145] fix: an aborted workflow run stays aborted and writes
 no artifact

---
 src/daemon/workflow-rpc.ts          | 1 +
 src/daemon/workflow-run-registry.ts | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/daemon/workflow-rpc.ts b/src/daemon/workflow-rpc.ts
index 6baeca2..688d029 100644
--- a/src/daemon/workflow-rpc.ts
+++ b/src/daemon/workflow-rpc.ts
@@ -312,6 +312,7 @@ export async function runWorkflowServerSide(
 		feedback = `\n\nYour previous artifact was REJECTED: ${formatFailure(failure)}\nFix exactly that and re-emit valid JSON.`;
 	}
 	if (finalized === undefined) throw new Error('workflow.run: synthesize produced no artifact');
+	checkAbort();   // an aborted run leaves no artifact behind
 
 	// 4. Persist (paths from the finalized meta, shared router).
 	const meta = (finalized.artifact as { meta?: { epicHash?: string; epicSlug?: string; storyId?: string } }).meta ?? {};
diff --git a/src/daemon/workflow-run-registry.ts b/src/daemon/workflow-run-registry.ts
index 8c13afa..25d7d01 100644
--- a/src/daemon/workflow-run-registry.ts
+++ b/src/daemon/workflow-run-registry.ts
@@ -115,6 +115,7 @@ export function startWorkflowRun(rawParams: unknown, deps: StartRunDeps = {}): {
 		: driveWithSeam();
 	void run.then(
 		(result) => {
+			if (state.status !== 'running') return;   // already reported as aborted
 			state.status = 'done';
 			state.result = result;
 			// Refresh the seeded run-wide label with the artifact's per-output
-- 
2.43.0


From bcf4c7d494baac4bef78cc74f557c6e89796adff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:09 +0000
Subject: [PATCH 038/145] fix: task records of a child plan no longer overwrite
 those of its parent

---
 src/analyze/executor/cache.ts  | 24 +++++++++++++++++-------
 src/analyze/executor/walker.ts |  4 ++--
 2 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/analyze/executor/cache.ts b/src/analyze/executor/cache.ts
index 49b6cbb..0f22e49 100644
--- a/src/analyze/executor/cache.ts
+++ b/src/analyze/executor/cache.ts
@@ -8,6 +8,7 @@
  *
  * Each task's completion writes a record to
  *   ~/.insrc/analyze/<runId>/tasks/<taskId>.json
+ * (tasks of a child plan: see taskOutputPathFor).
  *
  * For planner-template tasks the OUTPUT is the child plan's
  * aggregator output (materialized under the `report` produces
@@ -31,21 +32,30 @@ import {
 	unlinkSync,
 	writeFileSync,
 } from 'node:fs';
-import { dirname } from 'node:path';
+import { dirname, join } from 'node:path';
 
 import { getLogger } from '../../shared/logger.js';
 import { PATHS } from '../../shared/paths.js';
+import { planDirFor } from '../planner/cache.js';
 
 import type { TaskExecutionRecord } from './types.js';
 
 const log = getLogger('analyze:executor:cache');
 
-export function taskOutputPathFor(runId: string, taskId: string): string {
-	return PATHS.analyzeTaskOutput(runId, taskId);
+/**
+ * Task ids are only unique within one plan, so the tasks of a child plan
+ * (parentTaskPath set) live under that plan's own directory:
+ *   ~/.insrc/analyze/<runId>/tasks/t02/tasks/t02.t01.json
+ */
+export function taskOutputPathFor(runId: string, taskId: string, parentTaskPath?: string): string {
+	if (parentTaskPath === undefined || parentTaskPath.length === 0) {
+		return PATHS.analyzeTaskOutput(runId, taskId);
+	}
+	return join(planDirFor({ runId, parentTaskPath }), 'tasks', `${parentTaskPath}.${taskId}.json`);
 }
 
-export function writeTaskOutput(runId: string, record: TaskExecutionRecord): string {
-	const path = taskOutputPathFor(runId, record.taskId);
+export function writeTaskOutput(runId: string, record: TaskExecutionRecord, parentTaskPath?: string): string {
+	const path = taskOutputPathFor(runId, record.taskId, parentTaskPath);
 	atomicWriteJson(path, record);
 	log.debug(
 		{ runId, taskId: record.taskId, status: record.status, produces: record.produces },
@@ -54,8 +64,8 @@ export function writeTaskOutput(runId: string, record: TaskExecutionRecord): str
 	return path;
 }
 
-export function readTaskOutput(runId: string, taskId: string): TaskExecutionRecord | null {
-	const path = taskOutputPathFor(runId, taskId);
+export function readTaskOutput(runId: string, taskId: string, parentTaskPath?: string): TaskExecutionRecord | null {
+	const path = taskOutputPathFor(runId, taskId, parentTaskPath);
 	if (!existsSync(path)) return null;
 	try {
 		return JSON.parse(readFileSync(path, 'utf8')) as TaskExecutionRecord;
diff --git a/src/analyze/executor/walker.ts b/src/analyze/executor/walker.ts
index c9820e2..083efd7 100644
--- a/src/analyze/executor/walker.ts
+++ b/src/analyze/executor/walker.ts
@@ -137,7 +137,7 @@ async function executePlan(
 				error:       `dependency-unavailable: ${unmet}`,
 				completedAt: nowIso(),
 			};
-			writeTaskOutput(runId, record);
+			writeTaskOutput(runId, record, parentTaskPath);
 			perTask.set(task.taskId, record);
 			failed.add(task.taskId);
 			tasksFailed.push({ taskId: task.taskId, reason: record.error! });
@@ -169,7 +169,7 @@ async function executePlan(
 		}
 
 		// Step 4 + 5: persist + accumulate
-		writeTaskOutput(runId, result);
+		writeTaskOutput(runId, result, parentTaskPath);
 		perTask.set(task.taskId, result);
 
 		if (result.status === 'ok') {
-- 
2.43.0


From 4c27288b6546858361571db588cf88e106f22718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:34 +0000
Subject: [PATCH 039/145] fix: an aggregator may consume a child plan's report

---
 src/analyze/planner/validate.ts | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/analyze/planner/validate.ts b/src/analyze/planner/validate.ts
index db5b871..1c18245 100644
--- a/src/analyze/planner/validate.ts
+++ b/src/analyze/planner/validate.ts
@@ -423,7 +423,9 @@ function findDagCycle(tasks: readonly PlannedTask[]): string[] | null {
 	const producerOf = new Map<string, string>();   // output name -> taskId
 	for (const t of tasks) {
 		for (const out of t.produces) {
-			producerOf.set(out, t.taskId);
+			// First producer wins: a child plan and the aggregator may both
+			// produce `report`, and a consumer depends on the earlier one.
+			if (!producerOf.has(out)) producerOf.set(out, t.taskId);
 		}
 	}
 
@@ -485,7 +487,7 @@ function checkTopologicalOrder(tasks: readonly PlannedTask[]): string | null {
 	for (let i = 0; i < tasks.length; i++) {
 		const t = tasks[i]!;
 		for (const out of t.produces) {
-			positionByOutput.set(out, i);
+			if (!positionByOutput.has(out)) positionByOutput.set(out, i);
 		}
 	}
 	for (let i = 0; i < tasks.length; i++) {
-- 
2.43.0


From 6c059baf3f2b2b635a3ddc5705079377b16a72a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:19 +0000
Subject: [PATCH 040/145] fix: a broken catalogue row on first boot is
 reported, not thrown

---
 src/config/reconcile-io.ts | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/config/reconcile-io.ts b/src/config/reconcile-io.ts
index 72f911f..61d3ef1 100644
--- a/src/config/reconcile-io.ts
+++ b/src/config/reconcile-io.ts
@@ -181,7 +181,7 @@ export function reconcileConfigFile(opts: ReconcileFileOpts = {}): ConfigIoOutco
 		const e = err as NodeJS.ErrnoException;
 		if (e.code === 'ENOENT') {
 			// First boot — no file. Reconcile undefined → catalog defaults, write once.
-			return commit(fs, path, reconcile(undefined, opts.catalog), 'first-boot', null);
+			return reconcileAndCommit(fs, path, undefined, opts.catalog, 'first-boot', null);
 		}
 		return { kind: 'read-error', errno: e.code ?? 'UNKNOWN', message: e.message };
 	}
@@ -199,17 +199,27 @@ export function reconcileConfigFile(opts: ReconcileFileOpts = {}): ConfigIoOutco
 
 	// 3. Reconcile. A ConfigCatalogError is a shipped-catalog bug — surface it
 	//    as its own outcome kind, distinct from user-config and I/O failures.
+	// 4. Write only when changed.
+	return reconcileAndCommit(fs, path, parsed, opts.catalog, 'written', statBefore);
+}
+
+function reconcileAndCommit(
+	fs: ReconcileFsSeam,
+	path: string,
+	existing: unknown,
+	catalog: readonly ConfigOption[] | undefined,
+	kind: 'written' | 'first-boot',
+	statBefore: FsStat | null,
+): ConfigIoOutcome {
 	let result: ConfigReconcileResult;
 	try {
-		result = reconcile(parsed, opts.catalog);
+		result = reconcile(existing, catalog);
 	} catch (err) {
 		if (err instanceof ConfigCatalogError) {
 			return { kind: 'catalog-error', catalogPath: err.catalogPath, message: err.message };
 		}
 		return { kind: 'read-error', errno: 'RECONCILE', message: err instanceof Error ? err.message : String(err) };
 	}
-
-	// 4. Write only when changed.
-	if (!result.changed) return { kind: 'unchanged', result };
-	return commit(fs, path, result, 'written', statBefore);
+	if (kind === 'written' && !result.changed) return { kind: 'unchanged', result };
+	return commit(fs, path, result, kind, statBefore);
 }
-- 
2.43.0


From 0ab5d2bcf8a7c4607775715538abe96999cae204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:19 +0000
Subject: [PATCH 041/145] fix: a config write path never reaches
 Object.prototype

---
 src/config/write-path.ts | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/config/write-path.ts b/src/config/write-path.ts
index 1462587..dbbc90c 100644
--- a/src/config/write-path.ts
+++ b/src/config/write-path.ts
@@ -65,11 +65,17 @@ export function setConfigAtPath(
 	let obj: Record<string, unknown> = root;
 	for (let i = 0; i < keys.length - 1; i++) {
 		const key = keys[i]!;
-		const child = obj[key];
+		const child = Object.hasOwn(obj, key) ? obj[key] : undefined;
 		if (typeof child !== 'object' || child === null || Array.isArray(child)) {
-			obj[key] = {};
+			setOwn(obj, key, {});
 		}
 		obj = obj[key] as Record<string, unknown>;
 	}
-	obj[keys[keys.length - 1]!] = value;
+	setOwn(obj, keys[keys.length - 1]!, value);
+}
+
+/** Assign an OWN property even for a key such as "__proto__", so a write path
+ *  never reaches Object.prototype. */
+function setOwn(obj: Record<string, unknown>, key: string, value: unknown): void {
+	Object.defineProperty(obj, key, { value, enumerable: true, writable: true, configurable: true });
 }
-- 
2.43.0


From a693ed8eba75a0456a93ff391b2f542e1a405bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:35 +0000
Subject: [PATCH 042/145] fix: file_edit and file_multi-edit insert text
 literally and refuse what they cannot represent

---
 src/daemon/tools/builtins/file/edit.ts       | 12 +++++++-----
 src/daemon/tools/builtins/file/helpers.ts    |  7 +++++++
 src/daemon/tools/builtins/file/multi-edit.ts | 12 ++++++++----
 3 files changed, 22 insertions(+), 9 deletions(-)

diff --git a/src/daemon/tools/builtins/file/edit.ts b/src/daemon/tools/builtins/file/edit.ts
index 0332bc7..6b59a7f 100644
--- a/src/daemon/tools/builtins/file/edit.ts
+++ b/src/daemon/tools/builtins/file/edit.ts
@@ -8,7 +8,7 @@
 
 import { promises as fs } from 'node:fs';
 import type { Tool, ToolApprovalGate, ToolInput, ToolResult } from '../../types.js';
-import { resolvePath, str, fail, truncate, FS_WRITE_ACCESS } from './helpers.js';
+import { resolvePath, str, fail, decodeText, truncate, FS_WRITE_ACCESS } from './helpers.js';
 
 export interface FileEditData {
   path: string;
@@ -73,12 +73,14 @@ export const fileEditTool: Tool = {
     if (!path) { return fail('file_edit', 'missing path'); }
     const oldStr = str(input, 'oldString');
     if (oldStr === undefined) { return fail('file_edit', 'oldString is required'); }
-    const newStr = typeof input['newString'] === 'string' ? input['newString'] : '';
+    const newStr = input['newString'];
+    if (typeof newStr !== 'string') { return fail('file_edit', 'newString is required'); }
     const replaceAll = input['replaceAll'] === true;
 
-    let text: string;
-    try { text = await fs.readFile(path, 'utf8'); }
+    let text: string | undefined;
+    try { text = decodeText(await fs.readFile(path)); }
     catch (err) { return fail('file_edit', `read failed: ${(err as Error).message}`); }
+    if (text === undefined) { return fail('file_edit', 'not a UTF-8 text file'); }
 
     const count = countOccurrences(text, oldStr);
     if (count === 0) { return fail('file_edit', 'oldString not found'); }
@@ -88,7 +90,7 @@ export const fileEditTool: Tool = {
 
     const updated = replaceAll
       ? text.split(oldStr).join(newStr)
-      : text.replace(oldStr, newStr);
+      : text.replace(oldStr, () => newStr);
 
     try { await fs.writeFile(path, updated, 'utf8'); }
     catch (err) { return fail('file_edit', `write failed: ${(err as Error).message}`); }
diff --git a/src/daemon/tools/builtins/file/helpers.ts b/src/daemon/tools/builtins/file/helpers.ts
index c76b60f..0c8ef0f 100644
--- a/src/daemon/tools/builtins/file/helpers.ts
+++ b/src/daemon/tools/builtins/file/helpers.ts
@@ -104,6 +104,13 @@ export function resolvePath(input: ToolInput, key = 'path'): string | undefined
   return resolve(raw);
 }
 
+/** Decode a file for text editing. `undefined` when the bytes are not valid
+ *  UTF-8: writing the decoded text back would alter bytes the edit never named. */
+export function decodeText(bytes: Buffer): string | undefined {
+  const text = bytes.toString('utf8');
+  return Buffer.from(text, 'utf8').equals(bytes) ? text : undefined;
+}
+
 export function fail(id: string, msg: string): ToolResult {
   return { output: `[${id}] ${msg}`, format: 'text', success: false, error: msg };
 }
diff --git a/src/daemon/tools/builtins/file/multi-edit.ts b/src/daemon/tools/builtins/file/multi-edit.ts
index 8006346..932b8f2 100644
--- a/src/daemon/tools/builtins/file/multi-edit.ts
+++ b/src/daemon/tools/builtins/file/multi-edit.ts
@@ -9,7 +9,7 @@
 
 import { promises as fs } from 'node:fs';
 import type { Tool, ToolApprovalGate, ToolInput, ToolResult } from '../../types.js';
-import { resolvePath, fail, truncate, FS_WRITE_ACCESS } from './helpers.js';
+import { resolvePath, fail, decodeText, truncate, FS_WRITE_ACCESS } from './helpers.js';
 
 interface EditSpec {
   oldString: string;
@@ -76,10 +76,14 @@ export const fileMultiEditTool: Tool = {
     if (!path) { return fail('file_multi-edit', 'missing path'); }
     const edits = parseEdits(input);
     if (edits.length === 0) { return fail('file_multi-edit', 'edits must be non-empty'); }
+    if (edits.length !== (input['edits'] as unknown[]).length) {
+      return fail('file_multi-edit', 'every edit needs a string oldString and newString (no writes performed)');
+    }
 
-    let text: string;
-    try { text = await fs.readFile(path, 'utf8'); }
+    let text: string | undefined;
+    try { text = decodeText(await fs.readFile(path)); }
     catch (err) { return fail('file_multi-edit', `read failed: ${(err as Error).message}`); }
+    if (text === undefined) { return fail('file_multi-edit', 'not a UTF-8 text file'); }
 
     let current = text;
     let totalReplacements = 0;
@@ -95,7 +99,7 @@ export const fileMultiEditTool: Tool = {
       }
       current = e.replaceAll
         ? current.split(e.oldString).join(e.newString)
-        : current.replace(e.oldString, e.newString);
+        : current.replace(e.oldString, () => e.newString);
       totalReplacements += e.replaceAll ? count : 1;
     }
 
-- 
2.43.0


From eacd2260e05e2d51f21e93a6f8059fbefb835a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:35 +0000
Subject: [PATCH 043/145] fix: file_move never destroys source or destination
 when it cannot finish

---
 src/daemon/tools/builtins/file/move.ts | 40 +++++++++++++++++++++-----
 1 file changed, 33 insertions(+), 7 deletions(-)

diff --git a/src/daemon/tools/builtins/file/move.ts b/src/daemon/tools/builtins/file/move.ts
index 2bdf86f..60878fa 100644
--- a/src/daemon/tools/builtins/file/move.ts
+++ b/src/daemon/tools/builtins/file/move.ts
@@ -3,7 +3,7 @@
  */
 
 import { promises as fs } from 'node:fs';
-import { dirname, resolve } from 'node:path';
+import { dirname, resolve, sep } from 'node:path';
 import type { Tool, ToolApprovalGate, ToolInput, ToolResult } from '../../types.js';
 import { str, fail, FS_MOVE_ACCESS } from './helpers.js';
 
@@ -58,34 +58,60 @@ export const fileMoveTool: Tool = {
     const overwrite = input['overwrite'] === true;
     const mkdirp = input['mkdirp'] !== false;
 
+    if (src === dst || dst.startsWith(src + sep) || src.startsWith(dst + sep)) {
+      return fail('file_move', 'source and destination are the same or contain one another');
+    }
+    try { await fs.lstat(src); }
+    catch (err) { return fail('file_move', `stat failed: ${(err as Error).message}`); }
+
     let overwritten = false;
     try {
-      await fs.stat(dst);
-      if (!overwrite) { return fail('file_move', 'destination exists; set overwrite:true to replace'); }
+      await fs.lstat(dst);
       overwritten = true;
-      await fs.rm(dst, { recursive: true, force: true });
-    } catch { /* destination missing; fine */ }
+    } catch (err) {
+      if ((err as NodeJS.ErrnoException).code !== 'ENOENT') {
+        return fail('file_move', `stat failed: ${(err as Error).message}`);
+      }
+    }
+    if (overwritten && !overwrite) { return fail('file_move', 'destination exists; set overwrite:true to replace'); }
 
     if (mkdirp) {
       try { await fs.mkdir(dirname(dst), { recursive: true }); }
       catch (err) { return fail('file_move', `mkdir failed: ${(err as Error).message}`); }
     }
 
+    // Set the old destination aside so that a failing move can put it back.
+    const aside = `${dst}.replaced-${process.pid}-${Date.now()}`;
+    if (overwritten) {
+      try { await fs.rename(dst, aside); }
+      catch (err) { return fail('file_move', `rename failed: ${(err as Error).message}`); }
+    }
+    const restore = async (): Promise<void> => { if (overwritten) { await fs.rename(aside, dst).catch(() => undefined); } };
+    const dropAside = async (): Promise<void> => { if (overwritten) { await fs.rm(aside, { recursive: true, force: true }).catch(() => undefined); } };
+
     try { await fs.rename(src, dst); }
     catch (err) {
       // EXDEV = cross-device: fall back to copy + rm.
       if ((err as NodeJS.ErrnoException).code === 'EXDEV') {
         try {
-          await fs.cp(src, dst, { recursive: true, force: true });
-          await fs.rm(src, { recursive: true, force: true });
+          await fs.cp(src, dst, { recursive: true, force: true, verbatimSymlinks: true });
         } catch (err2) {
+          await fs.rm(dst, { recursive: true, force: true }).catch(() => undefined);
+          await restore();
           return fail('file_move', `cross-device move failed: ${(err2 as Error).message}`);
         }
+        try { await fs.rm(src, { recursive: true, force: true }); }
+        catch (err2) {
+          await dropAside();
+          return fail('file_move', `cross-device move left the source behind: ${(err2 as Error).message}`);
+        }
       } else {
+        await restore();
         return fail('file_move', `rename failed: ${(err as Error).message}`);
       }
     }
 
+    await dropAside();
     const data: FileMoveData = { from: src, to: dst, overwritten };
     return {
       output: `Moved \`${src}\` -> \`${dst}\`${overwritten ? ' (destination replaced)' : ''}.`,
-- 
2.43.0


From 3d123eb2e2821ea326d4e2ee8fd644486c51c66f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:35 +0000
Subject: [PATCH 044/145] fix: file_copy sees a dangling link at its
 destination

---
 src/daemon/tools/builtins/file/copy.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/daemon/tools/builtins/file/copy.ts b/src/daemon/tools/builtins/file/copy.ts
index d1601bf..f6a7370 100644
--- a/src/daemon/tools/builtins/file/copy.ts
+++ b/src/daemon/tools/builtins/file/copy.ts
@@ -62,7 +62,7 @@ export const fileCopyTool: Tool = {
 
     let overwritten = false;
     try {
-      await fs.stat(dst);
+      await fs.lstat(dst);
       if (!overwrite) { return fail('file_copy', 'destination exists; set overwrite:true to replace'); }
       overwritten = true;
     } catch { /* missing is fine */ }
-- 
2.43.0


From ff37c9162f581c169ff3d9ef97454b28ca90855e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:35 +0000
Subject: [PATCH 045/145] fix: file_delete removes links, not what they point
 to, and empty directories

---
 src/daemon/tools/builtins/file/delete.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/daemon/tools/builtins/file/delete.ts b/src/daemon/tools/builtins/file/delete.ts
index e65c782..87229c9 100644
--- a/src/daemon/tools/builtins/file/delete.ts
+++ b/src/daemon/tools/builtins/file/delete.ts
@@ -73,11 +73,11 @@ export const fileDeleteTool: Tool = {
     const recursive = input['recursive'] === true;
 
     let stat;
-    try { stat = await fs.stat(path); }
+    try { stat = await fs.lstat(path); }
     catch (err) { return fail('file_delete', `stat failed: ${(err as Error).message}`); }
 
     if (stat.isDirectory()) {
-      try { await fs.rm(path, { recursive, force: false }); }
+      try { await (recursive ? fs.rm(path, { recursive, force: false }) : fs.rmdir(path)); }
       catch (err) { return fail('file_delete', `rm failed: ${(err as Error).message}`); }
       const data: FileDeleteData = { path, kind: 'directory', recursive };
       return { output: `Deleted directory \`${path}\`.`, format: 'markdown', success: true, data };
-- 
2.43.0


From d178c1add03fc78563af1222e42389e920bde0c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:48 +0000
Subject: [PATCH 046/145] fix: the context tool loop refuses tools outside the
 read-only surface

---
 src/analyze/context/driver.ts | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/src/analyze/context/driver.ts b/src/analyze/context/driver.ts
index 4143e49..c82e467 100644
--- a/src/analyze/context/driver.ts
+++ b/src/analyze/context/driver.ts
@@ -55,7 +55,8 @@ import { OllamaProvider } from '../../agent/providers/ollama.js';
 import { loadAnalyzeConfig, type AnalyzeConfig } from '../../config/analyze.js';
 import { loadLocalProviderConfig } from '../../config/local.js';
 import { executeTool } from '../../daemon/tools/executor.js';
-import type { ToolDeps } from '../../daemon/tools/types.js';
+import { getTool } from '../../daemon/tools/registry.js';
+import type { ToolDeps, ToolInput, ToolResult } from '../../daemon/tools/types.js';
 import { listRepos } from '../../db/repos.js';
 import { getLogger } from '../../shared/logger.js';
 import type { RegisteredRepo } from '../../shared/types.js';
@@ -79,7 +80,7 @@ import {
 	SCHEMA_VERSION,
 	validateBundleWithErrors,
 } from './schema.js';
-import { getReadOnlyTools } from './tool-surface.js';
+import { getReadOnlyTools, isReadOnlyShaperTool } from './tool-surface.js';
 import { decompose, DecomposerLlmUnavailableError, DecomposerPromptMissingError } from './decomposer.js';
 import { synthesize, SynthesizerLlmUnavailableError, SynthesizerPromptMissingError } from './synthesizer.js';
 import { executePlan } from '../explore/index.js';
@@ -664,7 +665,7 @@ async function runToolLoop(
 					argsPreview:  previewToolArgs(call.input),
 				});
 			}
-			const result = await executeTool(call.name, call.input, deps);
+			const result = await executeReadOnly(call.name, call.input, deps);
 			if (onTrace !== undefined) {
 				onTrace({
 					type:         'tool-response',
@@ -686,6 +687,28 @@ async function runToolLoop(
 	throw new ShaperToolLoopExhausted(maxToolTurns);
 }
 
+/**
+ * Run a tool the model named. The advertised surface is read-only, but
+ * a model can name any tool it likes; whatever resolves to a tool
+ * outside the surface is refused, not executed.
+ */
+async function executeReadOnly(
+	name:  string,
+	input: ToolInput,
+	deps:  ToolDeps,
+): Promise<ToolResult> {
+	const tool = getTool(name);
+	if (tool !== undefined && !isReadOnlyShaperTool(tool.id)) {
+		return {
+			output:  `[${name}] refused: not part of the read-only tool surface`,
+			format:  'text',
+			success: false,
+			error:   'tool not allowed',
+		};
+	}
+	return executeTool(name, input, deps);
+}
+
 async function runFinalStructuredEmit(
 	provider:                LLMProvider,
 	messages:                LLMMessage[],
-- 
2.43.0


From 70d0856a673a672afdfc0f79c78d793d1d440979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:48 +0000
Subject: [PATCH 047/145] fix: git read tools refuse refs that git would read
 as options

---
 src/daemon/tools/builtins/git/blame.ts   | 4 ++++
 src/daemon/tools/builtins/git/diff.ts    | 4 ++++
 src/daemon/tools/builtins/git/helpers.ts | 5 +++++
 src/daemon/tools/builtins/git/log.ts     | 4 ++++
 src/daemon/tools/builtins/git/show.ts    | 4 ++++
 5 files changed, 21 insertions(+)

diff --git a/src/daemon/tools/builtins/git/blame.ts b/src/daemon/tools/builtins/git/blame.ts
index 340e72f..d788dc5 100644
--- a/src/daemon/tools/builtins/git/blame.ts
+++ b/src/daemon/tools/builtins/git/blame.ts
@@ -7,6 +7,7 @@
  * how many lines each commit contributed.
  */
 
+import { isOptionLike } from './helpers.js';
 import { runShell } from '../../shell-helper.js';
 import type { Tool, ToolInput, ToolResult } from '../../types.js';
 
@@ -55,6 +56,9 @@ export const gitBlameTool: Tool = {
       return fail('missing path');
     }
     const ref = str(input, 'ref') ?? 'HEAD';
+    if (isOptionLike(ref)) {
+      return { output: `[git:blame] invalid ref '${ref}'`, format: 'text', success: false, error: 'invalid ref' };
+    }
     const start = numInput(input, 'startLine');
     const end = numInput(input, 'endLine');
     const ignoreWhitespace = input['ignoreWhitespace'] === true;
diff --git a/src/daemon/tools/builtins/git/diff.ts b/src/daemon/tools/builtins/git/diff.ts
index 07508db..8d01809 100644
--- a/src/daemon/tools/builtins/git/diff.ts
+++ b/src/daemon/tools/builtins/git/diff.ts
@@ -14,6 +14,7 @@
  * payload was truncated.
  */
 
+import { isOptionLike } from './helpers.js';
 import { runShell } from '../../shell-helper.js';
 import type { Tool, ToolInput, ToolResult } from '../../types.js';
 
@@ -81,6 +82,9 @@ export const gitDiffTool: Tool = {
     const from = strInput(input, 'from');
     const to = strInput(input, 'to');
     const path = strInput(input, 'path');
+    if (isOptionLike(from)) {
+      return { output: `[git:diff] invalid ref '${from}'`, format: 'text', success: false, error: 'invalid ref' };
+    }
     const context = typeof input['context'] === 'number' ? input['context'] : undefined;
     const ignoreWhitespace = boolInput(input, 'ignoreWhitespace');
     const maxBytes = Math.min(
diff --git a/src/daemon/tools/builtins/git/helpers.ts b/src/daemon/tools/builtins/git/helpers.ts
index 52807bd..e57a3cf 100644
--- a/src/daemon/tools/builtins/git/helpers.ts
+++ b/src/daemon/tools/builtins/git/helpers.ts
@@ -10,6 +10,11 @@ export function str(input: ToolInput, key: string): string | undefined {
   return typeof v === 'string' && v.length > 0 ? v : undefined;
 }
 
+/** A ref starting with '-' would be read by git as an option. */
+export function isOptionLike(ref: string | undefined): boolean {
+  return ref !== undefined && ref.startsWith('-');
+}
+
 export function spawnFail(id: string, err: string): ToolResult {
   return {
     output: `[${id}] cannot spawn git -- ${err.trim() || 'unknown error'}`,
diff --git a/src/daemon/tools/builtins/git/log.ts b/src/daemon/tools/builtins/git/log.ts
index 5acb068..bdad9d7 100644
--- a/src/daemon/tools/builtins/git/log.ts
+++ b/src/daemon/tools/builtins/git/log.ts
@@ -7,6 +7,7 @@
  * result.data.
  */
 
+import { isOptionLike } from './helpers.js';
 import { runShell } from '../../shell-helper.js';
 import type { Tool, ToolInput, ToolResult } from '../../types.js';
 
@@ -66,6 +67,9 @@ export const gitLogTool: Tool = {
     const cwd = strInput(input, 'cwd') ?? process.cwd();
     const ref = strInput(input, 'ref') ?? 'HEAD';
     const path = strInput(input, 'path');
+    if (isOptionLike(ref)) {
+      return { output: `[git:log] invalid ref '${ref}'`, format: 'text', success: false, error: 'invalid ref' };
+    }
     const limit = clampLimit(input['limit']);
     const author = strInput(input, 'author');
     const grep = strInput(input, 'grep');
diff --git a/src/daemon/tools/builtins/git/show.ts b/src/daemon/tools/builtins/git/show.ts
index 8f51cc7..3b79618 100644
--- a/src/daemon/tools/builtins/git/show.ts
+++ b/src/daemon/tools/builtins/git/show.ts
@@ -6,6 +6,7 @@
  * when the commit touches many files.
  */
 
+import { isOptionLike } from './helpers.js';
 import { runShell } from '../../shell-helper.js';
 import type { Tool, ToolInput, ToolResult } from '../../types.js';
 import type { GitDiffFileStat } from './diff.js';
@@ -51,6 +52,9 @@ export const gitShowTool: Tool = {
     const cwd = str(input, 'cwd') ?? process.cwd();
     const ref = str(input, 'ref') ?? 'HEAD';
     const path = str(input, 'path');
+    if (isOptionLike(ref)) {
+      return { output: `[git:show] invalid ref '${ref}'`, format: 'text', success: false, error: 'invalid ref' };
+    }
     const maxBytes = Math.min(
       Math.max(typeof input['maxBytes'] === 'number' ? input['maxBytes'] : DEFAULT_MAX_BYTES, 1024),
       MAX_MAX_BYTES,
-- 
2.43.0


From a2537d1f4c15ff390686a039302fea735ee4b18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:04 +0000
Subject: [PATCH 048/145] fix: heartbeats are stored in UTC like every other
 timestamp

---
 camon/src/camon/storage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/camon/src/camon/storage.py b/camon/src/camon/storage.py
index ced00a7..fe5a8a9 100644
--- a/camon/src/camon/storage.py
+++ b/camon/src/camon/storage.py
@@ -109,7 +109,7 @@ class Storage:
                 """INSERT INTO addon_status(instance_id, seen_at, version, pid) VALUES (?, ?, ?, ?)
                 ON CONFLICT(instance_id) DO UPDATE SET seen_at=excluded.seen_at,
                 version=excluded.version, pid=excluded.pid""",
-                (status.instance_id, status.seen_at.isoformat(), status.version, status.pid),
+                (status.instance_id, status.seen_at.astimezone(UTC).isoformat(), status.version, status.pid),
             )
 
     def record(self, event: UsageEvent) -> int:
-- 
2.43.0


From 0fdc96ea5cccf85161fe43934d0bc9ad36cc3665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:04 +0000
Subject: [PATCH 049/145] fix: an exchange with an unusual body, URL or header
 is still counted

---
 camon/src/camon/addon_runtime.py | 46 +++++++++++++++++++++++++-------
 camon/src/camon/extract.py       |  2 +-
 2 files changed, 38 insertions(+), 10 deletions(-)

diff --git a/camon/src/camon/addon_runtime.py b/camon/src/camon/addon_runtime.py
index f90cc42..b6b717c 100644
--- a/camon/src/camon/addon_runtime.py
+++ b/camon/src/camon/addon_runtime.py
@@ -21,6 +21,8 @@ from urllib.parse import urlparse
 
 DEFAULT_AGENT_LOG_MAX_BYTES = 10 * 1024 * 1024
 LOG_ROTATIONS = 5
+# Larger numbers are not plausible usage, and would overflow SQLite's integer sums.
+MAX_TOKEN_COUNT = 2**48
 
 SCHEMA = """
 CREATE TABLE IF NOT EXISTS addon_status (
@@ -94,6 +96,32 @@ def _agent(user_agent: str) -> tuple[str, str, float]:
     return "unknown", "unknown", 0.0
 
 
+def _text(value: str | None) -> str | None:
+    """Return storable text; proxied bytes and JSON escapes can contain lone surrogates."""
+    return value.encode("utf-8", "replace").decode("utf-8") if isinstance(value, str) else value
+
+
+def _content(message: Any) -> bytes | None:
+    """Return a message body; mitmproxy raises ValueError when its encoding is invalid."""
+    try:
+        content: bytes | None = getattr(message, "content", None)
+    except ValueError:
+        content = getattr(message, "raw_content", None)
+    return content
+
+
+def _url_parts(url: str) -> tuple[str, str]:
+    try:
+        parsed = urlparse(url)
+        return parsed.hostname or "unknown", parsed.path or "/"
+    except ValueError:
+        return "unknown", "/"
+
+
+def _token_count(value: Any) -> int:
+    return int(value) if isinstance(value, int) and 0 <= value <= MAX_TOKEN_COUNT else 0
+
+
 def _usage(content: bytes | None) -> tuple[str | None, int, int, bool]:
     if content:
         try:
@@ -104,10 +132,8 @@ def _usage(content: bytes | None) -> tuple[str | None, int, int, bool]:
                 model = document.get("model") if isinstance(document.get("model"), str) else None
                 input_tokens = usage.get("input_tokens", usage.get("prompt_tokens", usage.get("promptTokenCount", 0)))
                 output_tokens = usage.get("output_tokens", usage.get("completion_tokens", usage.get("candidatesTokenCount", 0)))
-                valid_input = int(input_tokens) if isinstance(input_tokens, int) and input_tokens >= 0 else 0
-                valid_output = int(output_tokens) if isinstance(output_tokens, int) and output_tokens >= 0 else 0
-                return model, valid_input, valid_output, False
-        except (UnicodeDecodeError, json.JSONDecodeError, TypeError, ValueError):
+                return model, _token_count(input_tokens), _token_count(output_tokens), False
+        except (TypeError, ValueError, RecursionError):
             pass
     return None, 0, len(content or b"") // 4, True
 
@@ -251,16 +277,18 @@ class CamonAddon:
     def response(self, flow: Any) -> None:
         self._heartbeat()
         request, response = flow.request, flow.response
-        parsed = urlparse(request.pretty_url)
-        host, path = parsed.hostname or "unknown", parsed.path or "/"
-        content = getattr(response, "content", None)
+        host, path = _url_parts(request.pretty_url)
+        host, path = _text(host) or "unknown", _text(path) or "/"
+        content, request_content = _content(response), _content(request)
         model, input_tokens, output_tokens, estimated = _usage(content)
+        model = _text(model)
         if estimated:
-            input_tokens = len(getattr(request, "content", None) or b"") // 4
+            input_tokens = len(request_content or b"") // 4
         started, ended = getattr(request, "timestamp_start", None), getattr(response, "timestamp_end", None)
         duration = (ended - started) * 1000 if isinstance(started, (int, float)) and isinstance(ended, (int, float)) else None
         agent, source, confidence = _agent(request.headers.get("user-agent", ""))
         session = request.headers.get("x-session-id") or request.headers.get("openai-conversation-id") or request.headers.get("anthropic-conversation-id")
+        session = _text(session)
         timestamp = datetime.now(UTC)
         values = (
             timestamp.isoformat(), request.method, host, path, response.status_code, _provider(host), model,
@@ -280,7 +308,7 @@ class CamonAddon:
             output_tokens,
             estimated,
             duration,
-            len(getattr(request, "content", None) or b""),
+            len(request_content or b""),
             len(content or b""),
         )
 
diff --git a/camon/src/camon/extract.py b/camon/src/camon/extract.py
index 3c90570..efced98 100644
--- a/camon/src/camon/extract.py
+++ b/camon/src/camon/extract.py
@@ -36,7 +36,7 @@ def usage_from_json(body: bytes | None) -> tuple[str | None, int, int] | None:
         return None
     try:
         document = json.loads(body)
-    except (UnicodeDecodeError, json.JSONDecodeError):
+    except (ValueError, RecursionError):
         return None
     if not isinstance(document, dict):
         return None
-- 
2.43.0


From 0311f5c0f5eb54b6ba5c73b105d591d0a3861863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:04 +0000
Subject: [PATCH 050/145] fix: an exchange with an empty session header appears
 in its activity window

---
 camon/src/camon/addon_runtime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/camon/src/camon/addon_runtime.py b/camon/src/camon/addon_runtime.py
index b6b717c..b4c65f1 100644
--- a/camon/src/camon/addon_runtime.py
+++ b/camon/src/camon/addon_runtime.py
@@ -288,7 +288,7 @@ class CamonAddon:
         duration = (ended - started) * 1000 if isinstance(started, (int, float)) and isinstance(ended, (int, float)) else None
         agent, source, confidence = _agent(request.headers.get("user-agent", ""))
         session = request.headers.get("x-session-id") or request.headers.get("openai-conversation-id") or request.headers.get("anthropic-conversation-id")
-        session = _text(session)
+        session = _text(session) or None  # an empty header names no session
         timestamp = datetime.now(UTC)
         values = (
             timestamp.isoformat(), request.method, host, path, response.status_code, _provider(host), model,
-- 
2.43.0


From 3c5791905a6bc38bfda3378b6e4667efaf4d5a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:04 +0000
Subject: [PATCH 051/145] fix: a very long retention window keeps everything
 instead of failing

---
 camon/src/camon/addon_runtime.py | 8 +++++---
 camon/src/camon/storage.py       | 5 ++++-
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/camon/src/camon/addon_runtime.py b/camon/src/camon/addon_runtime.py
index b4c65f1..0b9e4d2 100644
--- a/camon/src/camon/addon_runtime.py
+++ b/camon/src/camon/addon_runtime.py
@@ -14,7 +14,7 @@ import sys
 import threading
 import time
 import uuid
-from datetime import UTC, datetime
+from datetime import UTC, datetime, timedelta
 from pathlib import Path
 from typing import Any
 from urllib.parse import urlparse
@@ -162,8 +162,10 @@ class AddonStorage:
             )
 
     def purge_expired(self) -> None:
-        cutoff = datetime.now(UTC).timestamp() - self.retention_days * 24 * 60 * 60
-        cutoff_timestamp = datetime.fromtimestamp(cutoff, UTC).isoformat()
+        try:
+            cutoff_timestamp = (datetime.now(UTC) - timedelta(days=self.retention_days)).isoformat()
+        except OverflowError:  # a window longer than the calendar keeps everything
+            cutoff_timestamp = datetime.min.replace(tzinfo=UTC).isoformat()
         cutoff_day = cutoff_timestamp[:10]
         with self._connection() as connection:
             removed = sum(
diff --git a/camon/src/camon/storage.py b/camon/src/camon/storage.py
index fe5a8a9..40a1a11 100644
--- a/camon/src/camon/storage.py
+++ b/camon/src/camon/storage.py
@@ -83,7 +83,10 @@ class Storage:
 
     def purge_expired(self) -> None:
         """Remove observations outside the configured retention window."""
-        cutoff = datetime.now(UTC) - timedelta(days=self.retention_days)
+        try:
+            cutoff = datetime.now(UTC) - timedelta(days=self.retention_days)
+        except OverflowError:  # a window longer than the calendar keeps everything
+            cutoff = datetime.min.replace(tzinfo=UTC)
         cutoff_timestamp = cutoff.isoformat()
         cutoff_day = cutoff.date().isoformat()
         with self.connection() as connection:
-- 
2.43.0


From 09d9b03d131b1ce379f5e7d2df2ccd25a5d8235f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:13 +0000
Subject: [PATCH 052/145] fix: the macOS service must listen on 127.0.0.1, not
 merely mention it

---
 camon/src/camon/registration.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/camon/src/camon/registration.py b/camon/src/camon/registration.py
index b15cbb7..0064b77 100644
--- a/camon/src/camon/registration.py
+++ b/camon/src/camon/registration.py
@@ -44,7 +44,9 @@ def _update_macos_program_arguments(document: dict[str, Any], addon: Path, mitmd
         raise ValueError("The LaunchAgent has invalid ProgramArguments.")
     if not arguments or "mitmdump" not in Path(arguments[0]).name:
         raise ValueError("The LaunchAgent is not a mitmdump service.")
-    if "--listen-host" not in arguments or "127.0.0.1" not in arguments:
+    hosts = [arguments[index + 1 : index + 2] for index, item in enumerate(arguments) if item == "--listen-host"]
+    hosts += [[item.split("=", 1)[1]] for item in arguments if item.startswith("--listen-host=")]
+    if not hosts or any(host != ["127.0.0.1"] for host in hosts):
         raise ValueError("Refusing to register with a service not bound to 127.0.0.1.")
     has_addon = any(argument == "-s" and Path(arguments[index + 1]) == addon for index, argument in enumerate(arguments[:-1]))
     updated = [str(mitmdump), *arguments[1:]]
-- 
2.43.0


From befd96ac00de8b28469ac0ff744e7cc84cdb0150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:13 +0000
Subject: [PATCH 053/145] fix: a registration backup never replaces an earlier
 one

---
 camon/src/camon/registration.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/camon/src/camon/registration.py b/camon/src/camon/registration.py
index 0064b77..139dc10 100644
--- a/camon/src/camon/registration.py
+++ b/camon/src/camon/registration.py
@@ -19,7 +19,12 @@ def addon_path() -> Path:
 def _backup(path: Path, backup_dir: Path) -> None:
     backup_dir.mkdir(parents=True, exist_ok=True)
     stamp = datetime.now().strftime("%Y%m%d-%H%M%S")
-    shutil.copy2(path, backup_dir / f"{path.name}.backup-{stamp}")
+    target = backup_dir / f"{path.name}.backup-{stamp}"
+    suffix = 0
+    while target.exists():  # several registrations within one second keep every backup
+        suffix += 1
+        target = backup_dir / f"{path.name}.backup-{stamp}-{suffix}"
+    shutil.copy2(path, target)
 
 
 def addon_mitmdump() -> Path:
-- 
2.43.0


From 212735d7083d57ad7a475ad6154efe40955625b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:13 +0000
Subject: [PATCH 054/145] fix: a macOS registration that cannot unload the
 service restores its configuration

---
 camon/src/camon/registration.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/camon/src/camon/registration.py b/camon/src/camon/registration.py
index 139dc10..01c589b 100644
--- a/camon/src/camon/registration.py
+++ b/camon/src/camon/registration.py
@@ -88,9 +88,12 @@ def _register_macos(addon: Path, retention_days: int) -> str:
     service_dir = Path.home() / "Library" / "Application Support" / "mitmproxy-local"
     _backup(plist, service_dir / "backups")
     staged = plist.with_suffix(".plist.camon-tmp")
-    with staged.open("wb") as handle:
-        plistlib.dump(document, handle, sort_keys=False)
-    os.replace(staged, plist)
+    try:
+        with staged.open("wb") as handle:
+            plistlib.dump(document, handle, sort_keys=False)
+        os.replace(staged, plist)
+    finally:
+        staged.unlink(missing_ok=True)
     target = f"gui/{os.getuid()}/local.mitmproxy"
     domain = f"gui/{os.getuid()}"
     unloaded = subprocess.run(["launchctl", "bootout", domain, str(plist)], check=False, capture_output=True, text=True)
@@ -100,6 +103,8 @@ def _register_macos(addon: Path, retention_days: int) -> str:
         unloaded = subprocess.run(["launchctl", "bootout", target], check=False, capture_output=True, text=True)
     still_loaded = subprocess.run(["launchctl", "print", target], check=False, capture_output=True, text=True)
     if still_loaded.returncode == 0:
+        # The service keeps running its previous configuration, so keep that on disk too.
+        plist.write_bytes(original)
         details = (unloaded.stderr or unloaded.stdout).strip()
         raise RuntimeError(f"Could not unload local.mitmproxy before registration. {details}".strip())
     try:
-- 
2.43.0


From b17eaae6af773c9e1bbe2fd6646417341c94d2e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:13 +0000
Subject: [PATCH 055/145] fix: a failed Linux registration restores the
 previous drop-in

---
 camon/src/camon/registration.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/camon/src/camon/registration.py b/camon/src/camon/registration.py
index 01c589b..e5902fb 100644
--- a/camon/src/camon/registration.py
+++ b/camon/src/camon/registration.py
@@ -150,12 +150,25 @@ def _register_linux(addon: Path, retention_days: int) -> str:
     if drop_in.exists() and drop_in.read_text(encoding="utf-8") == content:
         subprocess.run(["systemctl", "--user", "restart", "mitmproxy-local.service"], check=True)
         return "CAMON addon was already registered; restarted mitmproxy-local.service."
-    if drop_in.exists():
+    previous = drop_in.read_bytes() if drop_in.exists() else None
+    if previous is not None:
         _backup(drop_in, data_home / "mitmproxy-local" / "backups")
     drop_in.parent.mkdir(parents=True, exist_ok=True)
-    drop_in.write_text(content, encoding="utf-8")
-    subprocess.run(["systemctl", "--user", "daemon-reload"], check=True)
-    subprocess.run(["systemctl", "--user", "restart", "mitmproxy-local.service"], check=True)
+    try:
+        drop_in.write_text(content, encoding="utf-8")
+        subprocess.run(["systemctl", "--user", "daemon-reload"], check=True)
+        subprocess.run(["systemctl", "--user", "restart", "mitmproxy-local.service"], check=True)
+    except (OSError, subprocess.CalledProcessError) as error:
+        if previous is None:
+            drop_in.unlink(missing_ok=True)
+        else:
+            drop_in.write_bytes(previous)
+        for command in (["daemon-reload"], ["restart", "mitmproxy-local.service"]):
+            try:
+                subprocess.run(["systemctl", "--user", *command], check=False)
+            except OSError:
+                pass
+        raise RuntimeError(f"Could not restart mitmproxy-local.service; restored its previous configuration. {error}") from error
     return "Registered CAMON addon and restarted mitmproxy-local.service."
 
 
-- 
2.43.0


From fad77c865dfddd6383f32da5396580ca064a0113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:13 +0000
Subject: [PATCH 056/145] fix: updating Claude settings keeps the file's mode
 and link, and leaves no temporary file

---
 camon/src/camon/setup.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/camon/src/camon/setup.py b/camon/src/camon/setup.py
index 651178b..e6a6be9 100644
--- a/camon/src/camon/setup.py
+++ b/camon/src/camon/setup.py
@@ -139,12 +139,14 @@ def _write_claude_settings(path: Path, proxy_url: str, certificate_path: Path |
             "NODE_EXTRA_CA_CERTS": str(certificate),
         }
     )
+    path = path.resolve()  # a symlinked settings file stays a symlink
     path.parent.mkdir(parents=True, exist_ok=True)
     with tempfile.NamedTemporaryFile("w", encoding="utf-8", dir=path.parent, delete=False) as handle:
-        json.dump(values, handle, indent=2)
-        handle.write("\n")
         temporary_path = Path(handle.name)
     try:
+        temporary_path.write_text(json.dumps(values, indent=2) + "\n", encoding="utf-8")
+        if path.exists():
+            shutil.copymode(path, temporary_path)
         temporary_path.replace(path)
     finally:
         temporary_path.unlink(missing_ok=True)
-- 
2.43.0


From 0195871e94f46657b75c1702db56fd4f20987656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:13 +0000
Subject: [PATCH 057/145] fix: restarting managed mitmproxy never terminates a
 process that reused its PID

---
 camon/src/camon/runtime.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/camon/src/camon/runtime.py b/camon/src/camon/runtime.py
index 0747209..6c57c49 100644
--- a/camon/src/camon/runtime.py
+++ b/camon/src/camon/runtime.py
@@ -74,11 +74,14 @@ def restart_managed(config: AppConfig) -> subprocess.Popen[str]:
     if pid_path.exists():
         try:
             pid = int(pid_path.read_text(encoding="utf-8").strip())
-            psutil.Process(pid).terminate()
+            process = psutil.Process(pid)
+            # A process born after the PID file was written only reuses the number.
+            if process.create_time() <= pid_path.stat().st_mtime + 1:
+                process.terminate()
         except (ValueError, psutil.AccessDenied, psutil.NoSuchProcess):
             pass
         pid_path.unlink(missing_ok=True)
-    process = subprocess.Popen(config.mitmproxy_command, text=True)  # noqa: S603
+    started = subprocess.Popen(config.mitmproxy_command, text=True)  # noqa: S603
     pid_path.parent.mkdir(parents=True, exist_ok=True)
-    pid_path.write_text(str(process.pid), encoding="utf-8")
-    return process
+    pid_path.write_text(str(started.pid), encoding="utf-8")
+    return started
-- 
2.43.0


From 0c1cfa21e60de02f553597a6f22172e1ab16a8e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:04 +0000
Subject: [PATCH 058/145] fix: an invalid agent rule no longer stops
 attribution

---
 camon/src/camon/attribution.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/camon/src/camon/attribution.py b/camon/src/camon/attribution.py
index 8b0af3f..0c3cb28 100644
--- a/camon/src/camon/attribution.py
+++ b/camon/src/camon/attribution.py
@@ -23,8 +23,11 @@ KNOWN_PATTERNS = (
 
 def classify_text(text: str, rules: Iterable[AgentRule] = ()) -> str | None:
     for rule in sorted((item for item in rules if item.enabled), key=lambda item: item.priority):
-        if re.search(rule.pattern, text, re.IGNORECASE):
-            return rule.name
+        try:
+            if re.search(rule.pattern, text, re.IGNORECASE):
+                return rule.name
+        except re.error:  # a mistyped rule matches nothing
+            continue
     for pattern, agent in KNOWN_PATTERNS:
         if re.search(pattern, text, re.IGNORECASE):
             return agent
-- 
2.43.0


From 656f4c92fe95503f8401bc6cf9f096b6718bdbd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:06 +0000
Subject: [PATCH 059/145] fix: review claims that share an id are kept apart

---
 src/workflow/review/extract.ts | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/workflow/review/extract.ts b/src/workflow/review/extract.ts
index 082c3e6..38bf1ea 100644
--- a/src/workflow/review/extract.ts
+++ b/src/workflow/review/extract.ts
@@ -186,6 +186,14 @@ export async function extractClaims(
 	return claims;
 }
 
+/** `id`, suffixed when an earlier claim already uses it: verdicts and
+ *  resolutions are keyed by claim id, so one id must name one premise. */
+function uniqueId(id: string, taken: readonly Claim[]): string {
+	let unique = id;
+	for (let n = 2; taken.some(c => c.id === unique); n++) unique = `${id}-${n}`;
+	return unique;
+}
+
 /** Coerce the raw LLM envelope into well-formed `Claim`s, dropping empties
  *  and honouring `exactOptionalPropertyTypes` (omit rather than `undefined`). */
 function normalizeClaims(raw: readonly RawClaim[] | undefined): Claim[] {
@@ -194,7 +202,7 @@ function normalizeClaims(raw: readonly RawClaim[] | undefined): Claim[] {
 	for (let i = 0; i < raw.length; i++) {
 		const c = raw[i];
 		if (c === undefined) continue;
-		const id = typeof c.id === 'string' && c.id.length > 0 ? c.id : `c${i + 1}`;
+		const id = uniqueId(typeof c.id === 'string' && c.id.length > 0 ? c.id : `c${i + 1}`, out);
 		const greps = (c.probe?.greps ?? []).filter(g => typeof g === 'string' && g.length > 0);
 		const reads = (c.probe?.reads ?? []).filter(r => typeof r === 'string' && r.length > 0);
 		out.push({
-- 
2.43.0


From 302e17d7abea7542be5704f371bbda1d40f4b8f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:39 +0000
Subject: [PATCH 060/145] fix: a new artifact review is not cleared by
 resolutions of the previous one

---
 src/mcp/review-step/phases/verdicts.ts |  4 ++--
 src/workflow/review/index.ts           |  2 +-
 src/workflow/review/run-artifact.ts    | 10 +++++++++-
 3 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/mcp/review-step/phases/verdicts.ts b/src/mcp/review-step/phases/verdicts.ts
index f2080ea..09aebb3 100644
--- a/src/mcp/review-step/phases/verdicts.ts
+++ b/src/mcp/review-step/phases/verdicts.ts
@@ -23,7 +23,7 @@ import { getLogger } from '../../../shared/logger.js';
 import { writeAtomic } from '../../../workflow/storage.js';
 import {
 	applyAutoFixes, computeReviewVerdict, DEFAULT_BLOCK_ON_SEVERITIES, normalizeFinding,
-	pendingUserFindings, renderReviewReport, tallyFindings,
+	pendingUserFindings, renderReviewReport, tallyFindings, withFreshReview,
 } from '../../../workflow/review/index.js';
 import type { Claim, Finding, RawFinding, ReviewReport } from '../../../workflow/review/index.js';
 import { loadState, releaseState } from '../state-store.js';
@@ -83,7 +83,7 @@ export function handleVerdicts(input: ReviewStepInputVerdicts): ReviewStepDone {
 	const md = stripReviewSection(readFileSync(state.mdPath, 'utf8'));
 	const fixed = applyAutoFixes(md, artifact.body, report);
 
-	const nextJson = { ...artifact, meta: { ...artifact.meta, review: report }, body: fixed.body };
+	const nextJson = { ...artifact, meta: withFreshReview(artifact.meta, report), body: fixed.body };
 	writeAtomic(state.jsonPath, JSON.stringify(nextJson, null, 2) + '\n');
 	const nextMd = `${fixed.markdown.replace(/\s+$/, '')}\n\n${REVIEW_SECTION}\n\n## Review\n\n${renderReviewReport(report)}\n`;
 	writeAtomic(state.mdPath, nextMd);
diff --git a/src/workflow/review/index.ts b/src/workflow/review/index.ts
index 2fe378c..015d674 100644
--- a/src/workflow/review/index.ts
+++ b/src/workflow/review/index.ts
@@ -26,7 +26,7 @@ export type { ReviewPhase, RunReviewOpts } from './review.js';
 export { renderReviewReport } from './report.js';
 export { applyAutoFixes, pendingUserFindings } from './apply.js';
 export type { AutoFixResult, AppliedFix, SkippedFix } from './apply.js';
-export { reviewArtifactFile } from './run-artifact.js';
+export { reviewArtifactFile, withFreshReview } from './run-artifact.js';
 export type { ReviewArtifactOpts, ReviewArtifactResult } from './run-artifact.js';
 export { applyOneFinding } from './apply.js';
 export { resolveReviewFinding, effectiveReviewVerdict, listPendingReviewFindings } from './resolve.js';
diff --git a/src/workflow/review/run-artifact.ts b/src/workflow/review/run-artifact.ts
index c3c28b4..a69dad5 100644
--- a/src/workflow/review/run-artifact.ts
+++ b/src/workflow/review/run-artifact.ts
@@ -52,6 +52,14 @@ export interface ReviewArtifactResult {
 
 const REVIEW_SECTION = '<!-- insrc:review -->';
 
+/** `meta` carrying `report`: the resolutions recorded against an earlier
+ *  report name that report's findings, so they do not carry over. */
+export function withFreshReview(meta: Readonly<Record<string, unknown>>, report: ReviewReport): Record<string, unknown> {
+	const next: Record<string, unknown> = { ...meta, review: report };
+	delete next['reviewResolutions'];
+	return next;
+}
+
 /** Strip a previously-appended review section so re-runs don't stack. */
 function stripReviewSection(md: string): string {
 	const i = md.indexOf('\n' + REVIEW_SECTION);
@@ -91,7 +99,7 @@ export async function reviewArtifactFile(opts: ReviewArtifactOpts): Promise<Revi
 
 	// Persist: amended body + stamped review into the json; amended md with a
 	// rendered review section appended for human visibility.
-	const nextJson = { ...artifact, meta: { ...artifact.meta, review: report }, body: fixed.body };
+	const nextJson = { ...artifact, meta: withFreshReview(artifact.meta, report), body: fixed.body };
 	writeAtomic(opts.jsonPath, JSON.stringify(nextJson, null, 2) + '\n');
 	const nextMd = `${fixed.markdown.replace(/\s+$/, '')}\n\n${REVIEW_SECTION}\n\n## Review\n\n${renderReviewReport(report)}\n`;
 	writeAtomic(opts.mdPath, nextMd);
-- 
2.43.0


From a0ef0cc7957cfebcb257cff01907f7921932b257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:39 +0000
Subject: [PATCH 061/145] fix: applying a review finding edits the artifact,
 not the quoted review

---
 src/workflow/review/report.ts       | 3 +++
 src/workflow/review/resolve.ts      | 9 +++++++--
 src/workflow/review/run-artifact.ts | 4 +---
 3 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/workflow/review/report.ts b/src/workflow/review/report.ts
index 9e7aeca..4fe78f0 100644
--- a/src/workflow/review/report.ts
+++ b/src/workflow/review/report.ts
@@ -11,6 +11,9 @@
 
 import type { Finding, ReviewReport, Severity } from './types.js';
 
+/** Marks where the rendered review is appended to an artifact's markdown. */
+export const REVIEW_SECTION = '<!-- insrc:review -->';
+
 const VERDICT_EMOJI: Record<ReviewReport['verdict'], string> = {
 	pass:  '✅',
 	warn:  '⚠️',
diff --git a/src/workflow/review/resolve.ts b/src/workflow/review/resolve.ts
index ca334df..4d60953 100644
--- a/src/workflow/review/resolve.ts
+++ b/src/workflow/review/resolve.ts
@@ -27,6 +27,7 @@ import { getLogger } from '../../shared/logger.js';
 import { writeAtomic } from '../storage.js';
 import type { ReviewResolution } from '../types.js';
 import { applyOneFinding } from './apply.js';
+import { REVIEW_SECTION } from './report.js';
 import type { Finding, ReviewReport, ReviewVerdict, Severity } from './types.js';
 
 const log = getLogger('review');
@@ -102,10 +103,14 @@ export function resolveReviewFinding(
 		if (!existsSync(mdPath)) throw new Error(`No artifact md at ${mdPath}`);
 		const edits = finding.proposedFix?.artifactEdits ?? [];
 		if (edits.length === 0) throw new Error(`finding '${findingId}' has no artifactEdits to apply — use accept/override/defer`);
-		const md = readFileSync(mdPath, 'utf8');
+		// Edit the artifact proper: the appended review section quotes every
+		// proposed edit, so a stale `find` would always "match" there.
+		const full = readFileSync(mdPath, 'utf8');
+		const cut = full.indexOf(`\n${REVIEW_SECTION}`);
+		const md = cut === -1 ? full : full.slice(0, cut);
 		const one = applyOneFinding(md, artifact.body, finding.claimId, finding.ref, edits);
 		if (one.applied === undefined) throw new Error(`finding '${findingId}' edits did not match the artifact (stale) — use accept/override/defer`);
-		writeAtomic(mdPath, one.markdown);
+		writeAtomic(mdPath, one.markdown + full.slice(md.length));
 		artifact.body = one.body;
 		appliedEdits = one.applied.edits.length;
 		status = 'resolved';
diff --git a/src/workflow/review/run-artifact.ts b/src/workflow/review/run-artifact.ts
index a69dad5..5e46b79 100644
--- a/src/workflow/review/run-artifact.ts
+++ b/src/workflow/review/run-artifact.ts
@@ -21,7 +21,7 @@ import type { LLMProvider } from '../../shared/types.js';
 import { writeAtomic } from '../storage.js';
 import { applyAutoFixes, pendingUserFindings } from './apply.js';
 import type { AppliedFix, SkippedFix } from './apply.js';
-import { renderReviewReport } from './report.js';
+import { REVIEW_SECTION, renderReviewReport } from './report.js';
 import { runReview } from './review.js';
 import type { Finding, ReviewReport, Severity } from './types.js';
 
@@ -50,8 +50,6 @@ export interface ReviewArtifactResult {
 	readonly pendingUser: readonly Finding[];
 }
 
-const REVIEW_SECTION = '<!-- insrc:review -->';
-
 /** `meta` carrying `report`: the resolutions recorded against an earlier
  *  report name that report's findings, so they do not carry over. */
 export function withFreshReview(meta: Readonly<Record<string, unknown>>, report: ReviewReport): Record<string, unknown> {
-- 
2.43.0


From 3d03b8cf08915423b5c180a9ea0768f9ffb91157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:39 +0000
Subject: [PATCH 062/145] fix: a review premise left without a verdict counts
 as unverified

---
 src/mcp/review-step/phases/verdicts.ts | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/mcp/review-step/phases/verdicts.ts b/src/mcp/review-step/phases/verdicts.ts
index 09aebb3..3df1c3c 100644
--- a/src/mcp/review-step/phases/verdicts.ts
+++ b/src/mcp/review-step/phases/verdicts.ts
@@ -64,6 +64,16 @@ export function handleVerdicts(input: ReviewStepInputVerdicts): ReviewStepDone {
 		findings.push(normalizeFinding(claim, raw));
 	}
 
+	// A premise nobody judged is unverifiable (MED), never silently sound.
+	const judged = new Set(findings.map(f => f.claimId));
+	for (const claim of state.claims) {
+		if (judged.has(claim.id)) continue;
+		findings.push(normalizeFinding(claim, {
+			severity: 'MED', evidence: 'no verdict was given for this premise',
+			action: 'judge this premise', fixability: 'manual',
+		}));
+	}
+
 	const report: ReviewReport = {
 		artifact:   state.stage,
 		stage:      state.stage,
-- 
2.43.0


From e7821c8398bd77a87391f09f6775279e2e66a072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:39 +0000
Subject: [PATCH 063/145] fix: a review is only stamped on the content that was
 reviewed

---
 src/mcp/review-step/phases/verdicts.ts | 3 +++
 src/workflow/review/run-artifact.ts    | 9 ++++++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/mcp/review-step/phases/verdicts.ts b/src/mcp/review-step/phases/verdicts.ts
index 3df1c3c..9c7fb3e 100644
--- a/src/mcp/review-step/phases/verdicts.ts
+++ b/src/mcp/review-step/phases/verdicts.ts
@@ -91,6 +91,9 @@ export function handleVerdicts(input: ReviewStepInputVerdicts): ReviewStepDone {
 
 	const artifact = JSON.parse(readFileSync(state.jsonPath, 'utf8')) as { meta: Record<string, unknown>; body: unknown };
 	const md = stripReviewSection(readFileSync(state.mdPath, 'utf8'));
+	if (md !== stripReviewSection(state.markdown)) {
+		throw new Error(`insrc_review_step[verdicts]: the artifact changed since phase='start'; restart the review.`);
+	}
 	const fixed = applyAutoFixes(md, artifact.body, report);
 
 	const nextJson = { ...artifact, meta: withFreshReview(artifact.meta, report), body: fixed.body };
diff --git a/src/workflow/review/run-artifact.ts b/src/workflow/review/run-artifact.ts
index 5e46b79..072aa4a 100644
--- a/src/workflow/review/run-artifact.ts
+++ b/src/workflow/review/run-artifact.ts
@@ -95,9 +95,16 @@ export async function reviewArtifactFile(opts: ReviewArtifactOpts): Promise<Revi
 		? await runReview(fixed.markdown, base)
 		: first;
 
+	// The judging took a while: persist on top of what is on disk now, and only
+	// if that is still the content that was judged.
+	const current = JSON.parse(readFileSync(opts.jsonPath, 'utf8')) as typeof artifact;
+	if (readFileSync(opts.mdPath, 'utf8') !== rawMd || JSON.stringify(current.body) !== JSON.stringify(artifact.body)) {
+		throw new Error(`Artifact at ${opts.mdPath} changed while it was being reviewed; review it again`);
+	}
+
 	// Persist: amended body + stamped review into the json; amended md with a
 	// rendered review section appended for human visibility.
-	const nextJson = { ...artifact, meta: withFreshReview(artifact.meta, report), body: fixed.body };
+	const nextJson = { ...current, meta: withFreshReview(current.meta, report), body: fixed.body };
 	writeAtomic(opts.jsonPath, JSON.stringify(nextJson, null, 2) + '\n');
 	const nextMd = `${fixed.markdown.replace(/\s+$/, '')}\n\n${REVIEW_SECTION}\n\n## Review\n\n${renderReviewReport(report)}\n`;
 	writeAtomic(opts.mdPath, nextMd);
-- 
2.43.0


From d85ebf3599a2712b5f8132de9aefca949c4fd5dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:39 +0000
Subject: [PATCH 064/145] fix: an unfenced build verdict is read whole, not
 from its last nested object

---
 src/mcp/build-step/phases/validate.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mcp/build-step/phases/validate.ts b/src/mcp/build-step/phases/validate.ts
index 45b2268..855f76e 100644
--- a/src/mcp/build-step/phases/validate.ts
+++ b/src/mcp/build-step/phases/validate.ts
@@ -157,7 +157,7 @@ function lastBalancedObject(text: string): string | undefined {
 			else if (ch === '{') depth++;
 			else if (ch === '}') {
 				depth--;
-				if (depth === 0) { best = text.slice(start, i + 1); break; }
+				if (depth === 0) { best = text.slice(start, i + 1); start = i; break; }
 			}
 		}
 	}
-- 
2.43.0


From 5521f6112973bd607d80dfe451bb2703b1756eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:39 +0000
Subject: [PATCH 065/145] fix: a brainstorm run driven by the daemon can
 persist its spec

---
 src/daemon/workflow-rpc.ts | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/daemon/workflow-rpc.ts b/src/daemon/workflow-rpc.ts
index 688d029..559b5b4 100644
--- a/src/daemon/workflow-rpc.ts
+++ b/src/daemon/workflow-rpc.ts
@@ -315,11 +315,12 @@ export async function runWorkflowServerSide(
 	checkAbort();   // an aborted run leaves no artifact behind
 
 	// 4. Persist (paths from the finalized meta, shared router).
-	const meta = (finalized.artifact as { meta?: { epicHash?: string; epicSlug?: string; storyId?: string } }).meta ?? {};
+	const meta = (finalized.artifact as { meta?: { epicHash?: string; epicSlug?: string; specHash?: string; storyId?: string } }).meta ?? {};
 	const storyIdParam = typeof intent.params['storyId'] === 'string' ? intent.params['storyId'] as string : undefined;
 	const paths = pathsForWorkflow({
 		workflow: intent.workflow, repoPath: intent.repoPath, epicKey, runId,
-		epicHash: meta.epicHash, epicSlug: meta.epicSlug, storyId: meta.storyId, storyIdParam,
+		epicHash: meta.epicHash, epicSlug: meta.epicSlug, specHash: meta.specHash,
+		storyId: meta.storyId, storyIdParam,
 	});
 	writeAtomic(paths.md,   finalized.renderedMd);
 	writeAtomic(paths.json, finalized.renderedJson);
-- 
2.43.0


From 76f135f50d7da50125abdefb898f93ddd8c42e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:30 +0000
Subject: [PATCH 066/145] fix: a review that cannot start answers with an error

---
 src/mcp/review-step/handler.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mcp/review-step/handler.ts b/src/mcp/review-step/handler.ts
index 7d99f10..64e5376 100644
--- a/src/mcp/review-step/handler.ts
+++ b/src/mcp/review-step/handler.ts
@@ -53,7 +53,7 @@ async function dispatch(input: unknown): Promise<ReviewStepOutput> {
 	const step = input as ReviewStepInput;
 	try {
 		switch (step.phase) {
-			case 'start':    return handleStart(step);
+			case 'start':    return await handleStart(step);
 			case 'claims':   return await handleClaims(step);
 			case 'verdicts': return handleVerdicts(step);
 			default:
-- 
2.43.0


From 60ef58c354190cbc861c0a2ab597215ef4339483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:52 +0000
Subject: [PATCH 067/145] fix: a file name with an escaped dot is recognised in
 a probe pattern

---
 src/workflow/review/probe.ts | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/workflow/review/probe.ts b/src/workflow/review/probe.ts
index 4b08236..b3c6747 100644
--- a/src/workflow/review/probe.ts
+++ b/src/workflow/review/probe.ts
@@ -90,8 +90,9 @@ const IGNORE = new Set(['node_modules', 'out', 'dist', '.git']);
 /** Filename-ish tokens in a grep pattern (`foo.test.ts`, `src/x/y.ts`). */
 function filenameTokens(pattern: string): string[] {
 	const out = new Set<string>();
-	for (const m of pattern.matchAll(/[\w./-]*\w+\.[a-z][a-z0-9]{0,4}(?:\.[a-z][a-z0-9]{0,4})?/gi)) {
-		out.add(m[0].replace(/\\/g, ''));
+	const text = pattern.replace(/\\([./-])/g, '$1');   // `foo\.ts` names foo.ts
+	for (const m of text.matchAll(/[\w./-]*\w+\.[a-z][a-z0-9]{0,4}(?:\.[a-z][a-z0-9]{0,4})?/gi)) {
+		out.add(m[0]);
 	}
 	return [...out];
 }
-- 
2.43.0


From c41acfa88fee5c70895193f44462fea410af096b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:50 +0000
Subject: [PATCH 068/145] fix: the code-review freshness and grounding read
 only the reviewed repo's entities

---
 src/workflow/code-review/freshness.ts | 6 ++++--
 src/workflow/code-review/grounding.ts | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/workflow/code-review/freshness.ts b/src/workflow/code-review/freshness.ts
index b37167f..2e98158 100644
--- a/src/workflow/code-review/freshness.ts
+++ b/src/workflow/code-review/freshness.ts
@@ -91,16 +91,18 @@ export async function computeCodeReviewFreshness(
 export async function realFreshnessGraphDeps(): Promise<Pick<FreshnessDeps, 'entityWatermark' | 'fileMtime'>> {
 	const { getGraphStore }    = await import('../../db/graph/store.js');
 	const { decodeEntityRow }  = await import('../../db/graph/codec.js');
+	const { lookupRepoIdInTxn } = await import('../../db/repos.js');
 	const { statSync }         = await import('node:fs');
 	const { join, isAbsolute } = await import('node:path');
 
 	return {
-		async entityWatermark(_repoPath, file) {
+		async entityWatermark(repoPath, file) {
 			const store = await getGraphStore();
+			const repoId = lookupRepoIdInTxn(store, repoPath);
 			let max: number | null = null;
 			for (const { value } of store.entity.getRange()) {
 				const row = decodeEntityRow(value as Buffer);
-				if (row.filePath === file) {
+				if (row.repoId === repoId && row.filePath === file) {
 					const at = typeof row.indexedAt === 'number' ? row.indexedAt : 0;
 					max = max === null ? at : Math.max(max, at);
 				}
diff --git a/src/workflow/code-review/grounding.ts b/src/workflow/code-review/grounding.ts
index 6c18a36..53dd827 100644
--- a/src/workflow/code-review/grounding.ts
+++ b/src/workflow/code-review/grounding.ts
@@ -102,6 +102,7 @@ export async function realGroundingDeps(): Promise<GroundingDeps> {
 	const { decodeEntityRow }            = await import('../../db/graph/codec.js');
 	const { decodeEntityKey }            = await import('../../db/graph/keys.js');
 	const { inNeighbors, outNeighbors }  = await import('../../db/graph/edges.js');
+	const { lookupRepoIdInTxn }          = await import('../../db/repos.js');
 
 	const toGrounded = (idU64: bigint, row: { filePath: string; kind: string; name: string; signature: string }): GroundedEntity => ({
 		id:        idU64.toString(),
@@ -120,12 +121,13 @@ export async function realGroundingDeps(): Promise<GroundingDeps> {
 	};
 
 	return {
-		async entitiesInFile(_repoPath, file) {
+		async entitiesInFile(repoPath, file) {
 			const store = await getGraphStore();
+			const repoId = lookupRepoIdInTxn(store, repoPath);
 			const out: GroundedEntity[] = [];
 			for (const { key, value } of store.entity.getRange()) {
 				const row = decodeEntityRow(value as Buffer);
-				if (row.filePath === file) out.push(toGrounded(decodeEntityKey(key as Buffer), row));
+				if (row.repoId === repoId && row.filePath === file) out.push(toGrounded(decodeEntityKey(key as Buffer), row));
 			}
 			return out;
 		},
-- 
2.43.0


From a4c3ebd1f2c2066bbdf9d11d3983d8451c06c853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:50 +0000
Subject: [PATCH 069/145] fix: the diff-only review shows a file's unstaged and
 its staged changes

---
 src/workflow/code-review/grounding.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/workflow/code-review/grounding.ts b/src/workflow/code-review/grounding.ts
index 53dd827..1bd7b00 100644
--- a/src/workflow/code-review/grounding.ts
+++ b/src/workflow/code-review/grounding.ts
@@ -252,7 +252,9 @@ function splitDiffByFile(body: string): Map<string, string> {
 		if (!section.startsWith('diff --git')) continue;
 		const m = section.match(/^diff --git a\/(.+?) b\/(.+?)\s*$/m);
 		const path = m?.[2];
-		if (path) map.set(path, section.trimEnd());
+		// A file can have two sections: its unstaged and its staged changes.
+		const prior = path ? map.get(path) : undefined;
+		if (path) map.set(path, prior === undefined ? section.trimEnd() : `${prior}\n${section.trimEnd()}`);
 	}
 	return map;
 }
-- 
2.43.0


From 3794e20bfe90a23931fa149a90ba8ba6d8784ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:31 +0000
Subject: [PATCH 070/145] fix: git diff and show report renamed, added, deleted
 and non-ASCII-named files as git does

---
 src/daemon/tools/builtins/git/diff.ts    | 57 ++----------------------
 src/daemon/tools/builtins/git/helpers.ts | 42 +++++++++++++++++
 src/daemon/tools/builtins/git/show.ts    | 44 ++----------------
 3 files changed, 50 insertions(+), 93 deletions(-)

diff --git a/src/daemon/tools/builtins/git/diff.ts b/src/daemon/tools/builtins/git/diff.ts
index 8d01809..1ee6817 100644
--- a/src/daemon/tools/builtins/git/diff.ts
+++ b/src/daemon/tools/builtins/git/diff.ts
@@ -14,7 +14,7 @@
  * payload was truncated.
  */
 
-import { isOptionLike } from './helpers.js';
+import { isOptionLike, parseRawNumstat } from './helpers.js';
 import { runShell } from '../../shell-helper.js';
 import type { Tool, ToolInput, ToolResult } from '../../types.js';
 
@@ -127,7 +127,7 @@ export const gitDiffTool: Tool = {
       };
     }
 
-    const files = stat.code === 0 ? parseNumstat(stat.stdout) : [];
+    const files = stat.code === 0 ? parseRawNumstat(stat.stdout) : [];
     const totalInsertions = files.reduce((n, f) => n + f.insertions, 0);
     const totalDeletions  = files.reduce((n, f) => n + f.deletions, 0);
     const truncated = diff.stdout.length >= maxBytes;
@@ -168,7 +168,7 @@ interface DiffOpts {
 }
 
 function buildDiffArgv(o: DiffOpts): { argv: string[]; mode: string; range: string } {
-  const base = ['git', 'diff', '--no-color'];
+  const base = ['git', '-c', 'core.quotePath=false', 'diff', '--no-color', '--src-prefix=a/', '--dst-prefix=b/'];
   if (o.ignoreWhitespace) { base.push('-w'); }
   if (typeof o.context === 'number') { base.push(`-U${o.context}`); }
 
@@ -193,62 +193,13 @@ function buildDiffArgv(o: DiffOpts): { argv: string[]; mode: string; range: stri
 }
 
 function buildStatArgv(o: DiffOpts): string[] {
-  const base = ['git', 'diff', '--no-color', '--numstat'];
+  const base = ['git', 'diff', '--no-color', '--raw', '--numstat', '-z'];
   if (o.staged) { base.push('--cached'); }
   else if (o.from) { base.push(`${o.from}..${o.to ?? 'HEAD'}`); }
   if (o.path) { base.push('--', o.path); }
   return base;
 }
 
-// ---------------------------------------------------------------------------
-// Parsing
-// ---------------------------------------------------------------------------
-
-function parseNumstat(raw: string): GitDiffFileStat[] {
-  const out: GitDiffFileStat[] = [];
-  for (const line of raw.split('\n')) {
-    const trimmed = line.trimEnd();
-    if (!trimmed) { continue; }
-    // Formats:
-    //   "<ins>\t<del>\t<path>"
-    //   "<ins>\t<del>\t<origPath> => <newPath>"     (rename/copy)
-    //   "-\t-\t<path>"                              (binary)
-    const parts = trimmed.split('\t');
-    if (parts.length < 3) { continue; }
-    const insRaw = parts[0] ?? '';
-    const delRaw = parts[1] ?? '';
-    const pathPart = parts.slice(2).join('\t');
-
-    const binary = insRaw === '-' || delRaw === '-';
-    const insertions = binary ? 0 : Number(insRaw) || 0;
-    const deletions  = binary ? 0 : Number(delRaw) || 0;
-
-    const renameMatch = pathPart.match(/^(.+?) => (.+)$/);
-    const entry: GitDiffFileStat = renameMatch
-      ? {
-          path: renameMatch[2] ?? pathPart,
-          origPath: renameMatch[1] ?? '',
-          insertions,
-          deletions,
-          change: binary ? 'binary' : 'renamed',
-        }
-      : {
-          path: pathPart,
-          insertions,
-          deletions,
-          change: binary ? 'binary' : classify(insertions, deletions),
-        };
-    out.push(entry);
-  }
-  return out;
-}
-
-function classify(ins: number, del: number): string {
-  if (ins > 0 && del === 0) { return 'added'; }
-  if (del > 0 && ins === 0) { return 'deleted'; }
-  return 'modified';
-}
-
 // ---------------------------------------------------------------------------
 // Report
 // ---------------------------------------------------------------------------
diff --git a/src/daemon/tools/builtins/git/helpers.ts b/src/daemon/tools/builtins/git/helpers.ts
index e57a3cf..a48c53f 100644
--- a/src/daemon/tools/builtins/git/helpers.ts
+++ b/src/daemon/tools/builtins/git/helpers.ts
@@ -4,6 +4,7 @@
 
 import { runShell } from '../../shell-helper.js';
 import type { ToolInput, ToolResult } from '../../types.js';
+import type { GitDiffFileStat } from './diff.js';
 
 export function str(input: ToolInput, key: string): string | undefined {
   const v = input[key];
@@ -54,6 +55,47 @@ export async function stagedCount(cwd: string): Promise<number> {
   return res.stdout.split('\n').map(s => s.trim()).filter(Boolean).length;
 }
 
+/**
+ * Parse `git diff|show --raw --numstat -z`: the raw records give each file's
+ * status (and its previous name), the numstat records its line counts. With
+ * `-z` git neither quotes names nor abbreviates renames (`dir/{a => b}`).
+ */
+export function parseRawNumstat(out: string): GitDiffFileStat[] {
+  const fields = out.split('\0');
+  const status = new Map<string, string>();
+  const files: GitDiffFileStat[] = [];
+  for (let i = 0; i < fields.length; i++) {
+    const field = (fields[i] ?? '').replace(/^\n+/, '');
+    if (field.startsWith(':')) {
+      const letter = field.slice(field.lastIndexOf(' ') + 1).charAt(0);
+      const moved = !field.startsWith('::') && (letter === 'R' || letter === 'C');
+      i += moved ? 2 : 1;
+      status.set(fields[i] ?? '', letter);
+      continue;
+    }
+    const m = /^(\d+|-)\t(\d+|-)\t([\s\S]*)$/.exec(field);
+    if (m === null) { continue; }
+    let path = m[3] ?? '';
+    let origPath: string | undefined;
+    if (path === '') { origPath = fields[++i] ?? ''; path = fields[++i] ?? ''; }
+    const binary = m[1] === '-';
+    const letter = status.get(path);
+    files.push({
+      path,
+      ...(origPath !== undefined ? { origPath } : {}),
+      insertions: binary ? 0 : Number(m[1]),
+      deletions: binary ? 0 : Number(m[2]),
+      change: binary ? 'binary'
+        : letter === 'A' ? 'added'
+        : letter === 'D' ? 'deleted'
+        : letter === 'R' ? 'renamed'
+        : letter === 'C' ? 'copied'
+        : 'modified',
+    });
+  }
+  return files;
+}
+
 /** Short summary of staged changes for the approval gate. */
 export async function stagedSummary(cwd: string, maxFiles = 20): Promise<string> {
   const res = await runShell(['git', 'diff', '--cached', '--numstat'], { cwd, timeoutMs: 5_000 });
diff --git a/src/daemon/tools/builtins/git/show.ts b/src/daemon/tools/builtins/git/show.ts
index 3b79618..e6c0dd9 100644
--- a/src/daemon/tools/builtins/git/show.ts
+++ b/src/daemon/tools/builtins/git/show.ts
@@ -6,7 +6,7 @@
  * when the commit touches many files.
  */
 
-import { isOptionLike } from './helpers.js';
+import { isOptionLike, parseRawNumstat } from './helpers.js';
 import { runShell } from '../../shell-helper.js';
 import type { Tool, ToolInput, ToolResult } from '../../types.js';
 import type { GitDiffFileStat } from './diff.js';
@@ -90,9 +90,9 @@ export const gitShowTool: Tool = {
     }
 
     // Diff + numstat in parallel.
-    const diffArgv = ['git', 'show', '--no-color', '--pretty=format:', ref];
+    const diffArgv = ['git', '-c', 'core.quotePath=false', 'show', '--no-color', '--pretty=format:', ref];
     if (path) { diffArgv.push('--', path); }
-    const statArgv = ['git', 'show', '--no-color', '--numstat', '--pretty=format:', ref];
+    const statArgv = ['git', 'show', '--no-color', '--raw', '--numstat', '-z', '--pretty=format:', ref];
     if (path) { statArgv.push('--', path); }
 
     const [diff, stat] = await Promise.all([
@@ -100,7 +100,7 @@ export const gitShowTool: Tool = {
       runShell(statArgv, { cwd, timeoutMs: 15_000 }),
     ]);
 
-    const files = stat.code === 0 ? parseNumstat(stat.stdout) : [];
+    const files = stat.code === 0 ? parseRawNumstat(stat.stdout) : [];
     const totalInsertions = files.reduce((n, f) => n + f.insertions, 0);
     const totalDeletions  = files.reduce((n, f) => n + f.deletions, 0);
     const truncated = diff.stdout.length >= maxBytes;
@@ -157,42 +157,6 @@ function parseHeader(raw: string): Omit<GitShowData, 'files' | 'totalInsertions'
   };
 }
 
-function parseNumstat(raw: string): GitDiffFileStat[] {
-  const out: GitDiffFileStat[] = [];
-  for (const line of raw.split('\n')) {
-    const trimmed = line.trimEnd();
-    if (!trimmed) { continue; }
-    const parts = trimmed.split('\t');
-    if (parts.length < 3) { continue; }
-    const insRaw = parts[0] ?? '';
-    const delRaw = parts[1] ?? '';
-    const pathPart = parts.slice(2).join('\t');
-    const binary = insRaw === '-' || delRaw === '-';
-    const insertions = binary ? 0 : Number(insRaw) || 0;
-    const deletions  = binary ? 0 : Number(delRaw) || 0;
-    const rename = pathPart.match(/^(.+?) => (.+)$/);
-    if (rename) {
-      out.push({
-        path: rename[2] ?? pathPart,
-        origPath: rename[1] ?? '',
-        insertions, deletions,
-        change: binary ? 'binary' : 'renamed',
-      });
-    } else {
-      out.push({
-        path: pathPart,
-        insertions, deletions,
-        change: binary
-          ? 'binary'
-          : insertions > 0 && deletions === 0 ? 'added'
-          : deletions > 0 && insertions === 0 ? 'deleted'
-          : 'modified',
-      });
-    }
-  }
-  return out;
-}
-
 function renderReport(data: GitShowData, cwd: string, body: string): string {
   const lines: string[] = [];
   lines.push(`# ${data.shortSha} -- ${escape(data.subject)}`);
-- 
2.43.0


From 9b18606e0c8c89645d66de8bfe1391c1a3a0ea4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:02 +0000
Subject: [PATCH 071/145] fix: command output beyond its cap is cut at the cap
 and reported as truncated

---
 src/daemon/tools/builtins/git/diff.ts |  4 ++--
 src/daemon/tools/builtins/git/show.ts |  4 ++--
 src/daemon/tools/shell-helper.ts      | 16 ++++++++++++++--
 3 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/daemon/tools/builtins/git/diff.ts b/src/daemon/tools/builtins/git/diff.ts
index 1ee6817..f76439a 100644
--- a/src/daemon/tools/builtins/git/diff.ts
+++ b/src/daemon/tools/builtins/git/diff.ts
@@ -130,8 +130,8 @@ export const gitDiffTool: Tool = {
     const files = stat.code === 0 ? parseRawNumstat(stat.stdout) : [];
     const totalInsertions = files.reduce((n, f) => n + f.insertions, 0);
     const totalDeletions  = files.reduce((n, f) => n + f.deletions, 0);
-    const truncated = diff.stdout.length >= maxBytes;
-    const diffBody = truncated ? diff.stdout.slice(0, maxBytes) : diff.stdout;
+    const truncated = diff.stdoutTruncated === true;
+    const diffBody = diff.stdout;
 
     const data: GitDiffData = {
       mode,
diff --git a/src/daemon/tools/builtins/git/show.ts b/src/daemon/tools/builtins/git/show.ts
index e6c0dd9..0703af6 100644
--- a/src/daemon/tools/builtins/git/show.ts
+++ b/src/daemon/tools/builtins/git/show.ts
@@ -103,8 +103,8 @@ export const gitShowTool: Tool = {
     const files = stat.code === 0 ? parseRawNumstat(stat.stdout) : [];
     const totalInsertions = files.reduce((n, f) => n + f.insertions, 0);
     const totalDeletions  = files.reduce((n, f) => n + f.deletions, 0);
-    const truncated = diff.stdout.length >= maxBytes;
-    const diffBody = (truncated ? diff.stdout.slice(0, maxBytes) : diff.stdout).replace(/^\n/, '');
+    const truncated = diff.stdoutTruncated === true;
+    const diffBody = diff.stdout.replace(/^\n/, '');
 
     const data: GitShowData = {
       ...meta,
diff --git a/src/daemon/tools/shell-helper.ts b/src/daemon/tools/shell-helper.ts
index ac23056..7489b04 100644
--- a/src/daemon/tools/shell-helper.ts
+++ b/src/daemon/tools/shell-helper.ts
@@ -11,6 +11,7 @@
  */
 
 import { spawn } from 'node:child_process';
+import { StringDecoder } from 'node:string_decoder';
 
 export interface ShellResult {
   stdout: string;
@@ -21,6 +22,8 @@ export interface ShellResult {
   spawnError: boolean;
   /** Signal name when the process was killed. */
   signal?: NodeJS.Signals | undefined;
+  /** True when stdout exceeded `maxBytes`; `stdout` then holds its beginning. */
+  stdoutTruncated?: boolean | undefined;
   /** True when we killed the process via timeout. */
   timedOut: boolean;
 }
@@ -70,6 +73,9 @@ export function runShell(
 
     let stdout = '';
     let stderr = '';
+    // Decoders keep a character split over two chunks whole.
+    const stdoutDecoder = new StringDecoder('utf8');
+    const stderrDecoder = new StringDecoder('utf8');
     let stdoutBytes = 0;
     let stderrBytes = 0;
     let timedOut = false;
@@ -84,12 +90,14 @@ export function runShell(
     options.signal?.addEventListener('abort', onAbort, { once: true });
 
     child.stdout?.on('data', (chunk: Buffer) => {
+      const room = maxBytes - stdoutBytes;
       stdoutBytes += chunk.length;
-      if (stdoutBytes <= maxBytes) { stdout += chunk.toString('utf8'); }
+      if (room > 0) { stdout += stdoutDecoder.write(chunk.subarray(0, room)); }
     });
     child.stderr?.on('data', (chunk: Buffer) => {
+      const room = maxBytes - stderrBytes;
       stderrBytes += chunk.length;
-      if (stderrBytes <= maxBytes) { stderr += chunk.toString('utf8'); }
+      if (room > 0) { stderr += stderrDecoder.write(chunk.subarray(0, room)); }
     });
 
     child.on('error', err => {
@@ -103,12 +111,16 @@ export function runShell(
     child.on('close', (code, signal) => {
       clearTimeout(timer);
       options.signal?.removeEventListener('abort', onAbort);
+      const stdoutTruncated = stdoutBytes > maxBytes;
+      if (!stdoutTruncated) { stdout += stdoutDecoder.end(); }
+      if (stderrBytes <= maxBytes) { stderr += stderrDecoder.end(); }
       resolve({
         stdout,
         stderr,
         code,
         spawnError,
         timedOut,
+        ...(stdoutTruncated ? { stdoutTruncated } : {}),
         ...(signal ? { signal } : {}),
       });
     });
-- 
2.43.0


From 9f1f14a009696d69ba3670bbd7011e9d8c7422c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:35 +0000
Subject: [PATCH 072/145] fix: a code review whose grounding or diff failed can
 be resumed again

---
 src/mcp/code-review-step/handler.ts | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/mcp/code-review-step/handler.ts b/src/mcp/code-review-step/handler.ts
index 932d5de..17bff8b 100644
--- a/src/mcp/code-review-step/handler.ts
+++ b/src/mcp/code-review-step/handler.ts
@@ -166,7 +166,13 @@ async function dispatch(input: unknown, deps: CodeReviewStepDeps): Promise<CodeR
 	const step = input as CodeReviewStepInput;
 	try {
 		switch (step.phase) {
-			case 'start':      return await handleStart(step, deps);
+			case 'start': {
+				const out = await handleStart(step, deps);
+				// A resumed confirm_wait token is consumed once the review moves on; an
+				// error (all of them retryable here) leaves it usable for the retry.
+				if (out.next !== 'error' && typeof step.state === 'string') releaseState(step.state);
+				return out;
+			}
 			case 'judgements': return await handleJudgements(step, deps);
 			default:
 				return errorResult(
@@ -213,7 +219,6 @@ async function handleStart(
 		// the user's explicit choice), so a decline never silently upgrades to a full
 		// graph review.
 		if (step.proceed !== true) {
-			releaseState(step.state!);
 			return await beginDiffOnlyReview(repo, epicHash, storyId, subject, deps);
 		}
 	} else {
@@ -259,16 +264,11 @@ async function handleStart(
 				// Index never freshened before the deadline. Rather than re-prompt
 				// confirm_wait forever (a wedged index never resolves), auto-fall-back
 				// to the DIFF-ONLY (degraded) review — the same escape the decline
-				// branch takes. Release the confirm_wait token first (mirrors the
-				// fresh-break path below) so the diff review saves a fresh state.
-				releaseState(step.state!);
+				// branch takes.
 				return await beginDiffOnlyReview(repo, epicHash, storyId, subject, deps);
 			}
 			await deps.sleep(POLL_INTERVAL_MS);
 		}
-		// Fresh: consume the confirm_wait token; a fresh emit_judgements state is
-		// saved below.
-		releaseState(step.state!);
 	} else {
 		const f = await deps.fetchFreshness(freshParams);
 		if (!f.ok) {
-- 
2.43.0


From 23bc73c2ea7d777ab1875a2f6ab413c996ac52d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:02 +0000
Subject: [PATCH 073/145] fix: open questions sharing a tag are answered
 separately

---
 src/workflow/questions.ts | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/src/workflow/questions.ts b/src/workflow/questions.ts
index 2e209f8..2481e9b 100644
--- a/src/workflow/questions.ts
+++ b/src/workflow/questions.ts
@@ -73,7 +73,24 @@ const TAG_RE = /^\s*\[\s*([^\]\s/]+)\s*\//;
 export function questionId(text: string): string {
 	const m = TAG_RE.exec(text);
 	if (m !== null && m[1]!.length > 0) return m[1]!;
-	return 'q' + createHash('sha256').update(text.trim()).digest('hex').slice(0, 8);
+	return 'q' + shortSha(text);
+}
+
+function shortSha(text: string): string {
+	return createHash('sha256').update(text.trim()).digest('hex').slice(0, 8);
+}
+
+/** The ids of an artifact's open questions, one per text. Different
+ *  questions sharing a tag stay distinct: the first keeps the tag, each
+ *  later one gets `<tag>-<short sha>`. */
+export function questionIds(texts: readonly string[]): string[] {
+	const taken = new Map<string, string>();
+	return texts.map(text => {
+		const id = questionId(text);
+		const holder = taken.get(id);
+		if (holder === undefined) taken.set(id, text.trim());
+		return holder === undefined || holder === text.trim() ? id : `${id}-${shortSha(text)}`;
+	});
 }
 
 /** Back-compat alias for the former build-step name. */
@@ -99,8 +116,9 @@ export function openQuestions(
 	resolutions: Readonly<Record<string, QuestionResolution>> | undefined,
 ): OpenQuestionView[] {
 	const res = resolutions ?? {};
-	return texts.map(text => {
-		const id = questionId(text);
+	const ids = questionIds(texts);
+	return texts.map((text, i) => {
+		const id = ids[i]!;
 		const r = res[id];
 		return { id, text, status: r?.status ?? 'open' as const };
 	});
@@ -383,7 +401,8 @@ export function recordResolution(
 ): RecordResolutionResult {
 	const loc = locateArtifact(repoPath, kind, epicHash, storyId);
 	const texts = loc.artifact.body.openQuestions ?? [];
-	const questionText = texts.find(t => questionId(t) === qId);
+	const ids = questionIds(texts);
+	const questionText = texts.find((_, i) => ids[i] === qId);
 	if (questionText === undefined) {
 		throw new Error(
 			`workflow:questions: no open question with id '${qId}' on the ${kind.toUpperCase()} artifact ` +
@@ -505,8 +524,9 @@ function collectDeferred(
 	}
 	const resolutions = loc.artifact.meta.questionResolutions ?? {};
 	const texts = loc.artifact.body.openQuestions ?? [];
-	for (const text of texts) {
-		const id = questionId(text);
+	const ids = questionIds(texts);
+	for (const [i, text] of texts.entries()) {
+		const id = ids[i]!;
 		const r = resolutions[id];
 		if (r !== undefined && r.status === 'deferred') {
 			out.push({ kind, epicHash, ...(storyId !== undefined ? { storyId } : {}), questionId: id, text, resolution: r });
-- 
2.43.0


From a50e2ea7c68bb0c5bd78a516237a33cf0d499999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:48 +0000
Subject: [PATCH 074/145] fix: an epic whose issue is recorded on its HLD is
 found by that issue

---
 src/workflow/tracker/resolve.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/workflow/tracker/resolve.ts b/src/workflow/tracker/resolve.ts
index c54cc66..4b45fe1 100644
--- a/src/workflow/tracker/resolve.ts
+++ b/src/workflow/tracker/resolve.ts
@@ -237,7 +237,8 @@ function resolveByIssue(dir: string, number: string): ResolvedRef | null {
 		for (const [storyId, ref] of Object.entries(storyRefs)) {
 			if (refNumber(ref) === number) return buildRef(dir, epicHash, storyId);
 		}
-		if (tracker?.epicRef !== undefined && refNumber(tracker.epicRef) === number) {
+		const epicRef = tracker?.epicRef ?? readTrackerBlock(join(dir, `HLD-${epicHash}.json`))?.epicRef;
+		if (epicRef !== undefined && refNumber(epicRef) === number) {
 			return buildRef(dir, epicHash);
 		}
 	}
-- 
2.43.0


From 6dfdcf87879c01ca0cad753f3252494ff01e2d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:48 +0000
Subject: [PATCH 075/145] fix: an issue of another repository does not name a
 node of this one

---
 src/workflow/tracker/resolve.ts | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/workflow/tracker/resolve.ts b/src/workflow/tracker/resolve.ts
index 4b45fe1..b544399 100644
--- a/src/workflow/tracker/resolve.ts
+++ b/src/workflow/tracker/resolve.ts
@@ -202,7 +202,7 @@ function readTrackerBlock(path: string): TrackerBlock | undefined {
 
 /** issue# → node. Scans tasks (PLAN), then stories (LLD + DEF storyRefs),
  *  then epics (DEF / HLD epicRef). */
-function resolveByIssue(dir: string, number: string): ResolvedRef | null {
+function resolveByIssue(dir: string, matches: (ref: string) => boolean): ResolvedRef | null {
 	const files = listFiles(dir);
 
 	// Tasks (globally unique numbers live here most densely).
@@ -213,7 +213,7 @@ function resolveByIssue(dir: string, number: string): ResolvedRef | null {
 		const storyId  = m[2]!;
 		const taskRefs = readArtifact(join(dir, f))?.meta?.tracker?.taskRefs ?? {};
 		for (const [taskId, ref] of Object.entries(taskRefs)) {
-			if (refNumber(ref) === number) return buildRef(dir, epicHash, storyId, taskId);
+			if (matches(ref)) return buildRef(dir, epicHash, storyId, taskId);
 		}
 	}
 
@@ -224,7 +224,7 @@ function resolveByIssue(dir: string, number: string): ResolvedRef | null {
 		const epicHash = m[1]!;
 		const storyId  = m[2]!;
 		const storyRef = readArtifact(join(dir, f))?.meta?.tracker?.storyRef;
-		if (storyRef !== undefined && refNumber(storyRef) === number) return buildRef(dir, epicHash, storyId);
+		if (storyRef !== undefined && matches(storyRef)) return buildRef(dir, epicHash, storyId);
 	}
 
 	// Stories + epics — the DEF aggregate (storyRefs) and epicRef.
@@ -235,10 +235,10 @@ function resolveByIssue(dir: string, number: string): ResolvedRef | null {
 		const tracker  = readArtifact(join(dir, f))?.meta?.tracker;
 		const storyRefs = tracker?.storyRefs ?? {};
 		for (const [storyId, ref] of Object.entries(storyRefs)) {
-			if (refNumber(ref) === number) return buildRef(dir, epicHash, storyId);
+			if (matches(ref)) return buildRef(dir, epicHash, storyId);
 		}
 		const epicRef = tracker?.epicRef ?? readTrackerBlock(join(dir, `HLD-${epicHash}.json`))?.epicRef;
-		if (epicRef !== undefined && refNumber(epicRef) === number) {
+		if (epicRef !== undefined && matches(epicRef)) {
 			return buildRef(dir, epicHash);
 		}
 	}
@@ -302,11 +302,11 @@ export function resolveWorkflowRef(repoPath: string, identifier: string): Resolv
 
 	// 2) Tracker issue — owner/repo#N.
 	const ownerRepo = OWNER_REPO_ISSUE_RE.exec(id);
-	if (ownerRepo !== null) return resolveByIssue(dir, ownerRepo[3]!);
+	if (ownerRepo !== null) return resolveByIssue(dir, ref => ref.toLowerCase() === id.toLowerCase());
 
 	// 3) Tracker issue — #N or N.
 	const bare = BARE_ISSUE_RE.exec(id);
-	if (bare !== null) return resolveByIssue(dir, bare[1]!);
+	if (bare !== null) return resolveByIssue(dir, ref => refNumber(ref) === bare[1]!);
 
 	// 4) Structural label — s1/t3 or s1.
 	const label = LABEL_RE.exec(id);
-- 
2.43.0


From 525ec8b34838cbc74c1f78257550bd80141af5e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:48 +0000
Subject: [PATCH 076/145] fix: a build ledger record without a body no longer
 blocks recording verdicts

---
 src/workflow/runners/build/standalone-record.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/workflow/runners/build/standalone-record.ts b/src/workflow/runners/build/standalone-record.ts
index 57a00a4..ce51499 100644
--- a/src/workflow/runners/build/standalone-record.ts
+++ b/src/workflow/runners/build/standalone-record.ts
@@ -203,7 +203,7 @@ function mergeTasks(prior: readonly BuildRecordTask[] | undefined, next: readonl
 function mergeWithPrior(jsonPath: string, rec: BuildRecord): BuildRecord {
 	const prior = readPriorRecord(jsonPath);
 	if (prior === null) return rec;
-	const tasks = mergeTasks(prior.body.tasks, rec.body.tasks);
+	const tasks = mergeTasks(prior.body?.tasks, rec.body.tasks);
 	const meta: BuildRecord['meta'] = {
 		...rec.meta,
 		createdAt: prior.meta.createdAt,
-- 
2.43.0


From 2935deca9e2730d817365031f8dd1b35a98fb4b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:48 +0000
Subject: [PATCH 077/145] fix: a standalone build only accepts a story id, not
 a path

---
 src/mcp/build-step/phases/implement.ts | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mcp/build-step/phases/implement.ts b/src/mcp/build-step/phases/implement.ts
index 399348b..3622678 100644
--- a/src/mcp/build-step/phases/implement.ts
+++ b/src/mcp/build-step/phases/implement.ts
@@ -112,6 +112,10 @@ function handleStandaloneImplement(
 		return err('no-identity', `insrc_build_step[implement]: a standalone Small build requires \`standalone.epicHash\` + \`storyId\` (the approved LLD identity).`);
 	}
 	const storyId = ctx.storyId ?? 'S001';
+	if (!/^[Ss]\d+$/.test(storyId)) {
+		// The id names the LLD and BUILD files; anything else could point outside the repo's artifacts.
+		return err('bad-story', `insrc_build_step[implement]: invalid \`standalone.storyId\` '${storyId}' (expected S<n>).`);
+	}
 
 	const verdict = admitStandaloneBuild(repoPath, epicHash, storyId, producesLld);
 	if (!verdict.admitted) {
-- 
2.43.0


From c4f0bfd9e023fe9252b915b3c2ce57e21c986c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:32 +0000
Subject: [PATCH 078/145] fix: checking in artifacts leaves the user's own
 staged changes alone

---
 src/workflow/tracker/github.ts | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/workflow/tracker/github.ts b/src/workflow/tracker/github.ts
index e6eccf6..df9d824 100644
--- a/src/workflow/tracker/github.ts
+++ b/src/workflow/tracker/github.ts
@@ -72,12 +72,13 @@ export function commitAndPushArtifacts(repoPath: string, paths: readonly string[
 
 	// `git diff --cached --quiet` exits 0 when nothing is staged, non-zero when
 	// there ARE staged changes → the throw is the "there is something to commit" signal.
+	// Only these paths count: whatever else the user has staged stays staged.
 	let staged = false;
-	try { silent('git', ['-C', repoPath, 'diff', '--cached', '--quiet']); }
+	try { silent('git', ['-C', repoPath, 'diff', '--cached', '--quiet', '--', ...present]); }
 	catch { staged = true; }
 	if (!staged) return { committed: false, pushed: false, reason: 'nothing to commit (already up to date)' };
 
-	try { silent('git', ['-C', repoPath, 'commit', '-m', message]); }
+	try { silent('git', ['-C', repoPath, 'commit', '-m', message, '--', ...present]); }
 	catch (err) { return { committed: false, pushed: false, reason: `git commit failed: ${(err as Error).message}` }; }
 
 	try { silent('git', ['-C', repoPath, 'push']); return { committed: true, pushed: true }; }
-- 
2.43.0


From 030dd05a7e0ab447a767d17234593d72494350c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:55 +0000
Subject: [PATCH 079/145] fix: a task push that fails half-way does not create
 its issues again

---
 src/workflow/tracker-auto.ts | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/workflow/tracker-auto.ts b/src/workflow/tracker-auto.ts
index 4113ed9..47be7f6 100644
--- a/src/workflow/tracker-auto.ts
+++ b/src/workflow/tracker-auto.ts
@@ -304,6 +304,9 @@ export function autoPushTasksOnPlan(planJsonPath: string): AutoPushResult {
 		} catch (err) { return { status: 'failed', reason: `gh issue create (task ${task.id}) failed: ${(err as Error).message}` }; }
 		taskRefs[task.id] = issue.ref;
 		createdCount += 1;
+		// Recorded at once: a failure on a later task must not lose this ref,
+		// or the next push would create the issue a second time.
+		patchTrackerMeta(planJsonPath, { taskRefs });
 		bestEffort(`sub-issue ${task.id}`, () => ghLinkSubIssue(cfg.owner, cfg.repo, parentStoryRef, issue.id));
 		if (!issue.typed) log.info({ task: task.id, type: cfg.taskIssueType }, 'task issue created untyped (org may not have the issue type)');
 	}
-- 
2.43.0


From 98ede1193ef7b6465b33d704c646696fdf494c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:55 +0000
Subject: [PATCH 080/145] fix: a tracker push cut off between its artifacts can
 be completed

---
 src/workflow/tracker-auto.ts | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/workflow/tracker-auto.ts b/src/workflow/tracker-auto.ts
index 47be7f6..47cea50 100644
--- a/src/workflow/tracker-auto.ts
+++ b/src/workflow/tracker-auto.ts
@@ -142,10 +142,11 @@ export function autoPushEpicOnHld(hldJsonPath: string): AutoPushResult {
 
 	// Persist the ref (firm): on the HLD (its own doc link) and on the
 	// Define (the Epic-level aggregate the chain report + LLD flow read).
+	// The HLD comes last: its ref is what marks the push as done.
 	const now = new Date().toISOString();
-	patchTrackerMeta(hldJsonPath, { epicRef, pushedAt: now, ...(created.length > 0 ? { labelsCreated: created } : {}) });
 	const definePaths = defineArtifactPaths(repoPath, epicHash, epicSlug);
 	patchTrackerMeta(definePaths.json, { epicRef, pushedAt: now });
+	patchTrackerMeta(hldJsonPath, { epicRef, pushedAt: now, ...(created.length > 0 ? { labelsCreated: created } : {}) });
 	// Re-render both docs so each shows the `**Tracker:** owner/repo#N` link.
 	relink(hldArtifactPaths(repoPath, epicHash, epicSlug).md, () => { const a = readHldArtifact(repoPath, epicHash); return withResolvedTail(a.meta, a.citations, renderHldMarkdown(a)); });
 	relink(definePaths.md, () => { const a = readDefineArtifact(repoPath, epicHash); return withResolvedTail(a.meta, a.citations, renderDefineMarkdown(a)); });
@@ -214,9 +215,10 @@ export function autoPushStoryOnLld(lldJsonPath: string): AutoPushResult {
 
 	// Persist: storyRef on the LLD (its doc link) + aggregate into the
 	// Define's storyRefs map. Re-render the LLD doc with the issue link.
+	// The aggregate comes first: the LLD's ref is what marks the push as done.
+	patchTrackerMeta(defineArtifactPaths(repoPath, epicHash, epicSlug).json, { storyRefs: { ...(defineTracker?.storyRefs ?? {}), [storyId]: storyRef } });
 	patchTrackerMeta(lldJsonPath, { storyRef, pushedAt: new Date().toISOString() });
 	relink(lldArtifactPaths(repoPath, epicHash, storyId, epicSlug).md, () => { const a = readLldArtifact(repoPath, epicHash, storyId); return withResolvedTail(a.meta, a.citations, renderLldMarkdown(a)); });
-	patchTrackerMeta(defineArtifactPaths(repoPath, epicHash, epicSlug).json, { storyRefs: { ...(defineTracker?.storyRefs ?? {}), [storyId]: storyRef } });
 
 	if (adopted === undefined) {
 		bestEffort('tasklist', () => {
-- 
2.43.0


From 8ba0f1ef08a598a44d73a088885d703cd9a4bf77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:55 +0000
Subject: [PATCH 081/145] fix: an epic is not created twice because looking it
 up failed

---
 src/workflow/tracker-auto.ts   | 4 +++-
 src/workflow/tracker/github.ts | 6 +++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/workflow/tracker-auto.ts b/src/workflow/tracker-auto.ts
index 47cea50..1901e87 100644
--- a/src/workflow/tracker-auto.ts
+++ b/src/workflow/tracker-auto.ts
@@ -120,7 +120,9 @@ export function autoPushEpicOnHld(hldJsonPath: string): AutoPushResult {
 	// Duplicate guard: adopt an existing Epic issue (unique by epic +
 	// epic-membership labels) rather than creating a second one.
 	const membership = epicMembershipLabel(epicSlug);
-	const adopted = ghFindIssueByLabels(cfg.owner, cfg.repo, [cfg.epicLabel, membership]);
+	let adopted: string | undefined;
+	try { adopted = ghFindIssueByLabels(cfg.owner, cfg.repo, [cfg.epicLabel, membership]); }
+	catch (err) { return { status: 'failed', reason: `gh issue list failed: ${(err as Error).message}` }; }
 	let epicRef: string;
 	let created: string[] = [];
 	if (adopted !== undefined) {
diff --git a/src/workflow/tracker/github.ts b/src/workflow/tracker/github.ts
index df9d824..d3a9f83 100644
--- a/src/workflow/tracker/github.ts
+++ b/src/workflow/tracker/github.ts
@@ -203,12 +203,12 @@ export function ghGetIssueState(owner: string, repo: string, ref: string): { sta
 }
 
 /** Find an existing issue by the given labels (all must match). Returns
- *  its ref, or undefined. Used as a duplicate-create guard. */
+ *  its ref, or undefined. Used as a duplicate-create guard, so a lookup that
+ *  fails throws: "could not look" is not "there is none". */
 export function ghFindIssueByLabels(owner: string, repo: string, labels: readonly string[]): string | undefined {
 	const args = ['issue', 'list', '--repo', `${owner}/${repo}`, '--state', 'all', '--json', 'number', '-q', '.[0].number'];
 	for (const l of labels) args.push('--label', l);
-	let num: string;
-	try { num = out('gh', args); } catch { return undefined; }
+	const num = out('gh', args);
 	return /^\d+$/.test(num) ? buildRef(owner, repo, num) : undefined;
 }
 
-- 
2.43.0


From bbfb0c0b53407e1deb7a9937b62dbd86697af1bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:55 +0000
Subject: [PATCH 082/145] fix: a created issue whose reply is unreadable is not
 created a second time

---
 src/workflow/tracker/github.ts | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/workflow/tracker/github.ts b/src/workflow/tracker/github.ts
index d3a9f83..3a36c88 100644
--- a/src/workflow/tracker/github.ts
+++ b/src/workflow/tracker/github.ts
@@ -163,10 +163,14 @@ export function ghCreateIssueTyped(
 		return { number: j.number, id: j.id };
 	};
 	if (typeof issueType === 'string' && issueType.length > 0) {
-		try {
-			const r = parse(out('gh', [...base, '-f', `type=${issueType}`]));
+		let raw: string | undefined;
+		try { raw = out('gh', [...base, '-f', `type=${issueType}`]); }
+		catch { /* org may not have issue types — fall through untyped */ }
+		if (raw !== undefined) {
+			// The call succeeded, so the issue exists: never create it again.
+			const r = parse(raw);
 			return { ref: buildRef(owner, repo, r.number), id: r.id, typed: true };
-		} catch { /* org may not have issue types — fall through untyped */ }
+		}
 	}
 	const r = parse(out('gh', base));
 	return { ref: buildRef(owner, repo, r.number), id: r.id, typed: false };
-- 
2.43.0


From 4366d52f48f942a5133bf8d833f2409bbfcdaa5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:11 +0000
Subject: [PATCH 083/145] fix: rendering a document again keeps its answers,
 citations and review

---
 src/workflow/document.ts      | 27 +++++++++++++++++++++++++++
 src/workflow/gates.ts         |  4 +++-
 src/workflow/questions.ts     |  3 ++-
 src/workflow/review/report.ts | 10 ++++++++++
 src/workflow/tracker-auto.ts  | 26 ++++++--------------------
 src/workflow/tracker/link.ts  | 11 ++++++-----
 6 files changed, 54 insertions(+), 27 deletions(-)
 create mode 100644 src/workflow/document.ts

diff --git a/src/workflow/document.ts b/src/workflow/document.ts
new file mode 100644
index 0000000..5a92fc5
--- /dev/null
+++ b/src/workflow/document.ts
@@ -0,0 +1,27 @@
+/*---------------------------------------------------------------------------------------------
+ *  Copyright (c) Procix Software India. All rights reserved.
+ *  Licensed under the MIT License. See License.txt in the project root for license information.
+ *--------------------------------------------------------------------------------------------*/
+
+/**
+ * What follows an artifact's own text in its markdown: the answered open
+ * questions, the citations and the last review. Every writer that renders an
+ * existing document again appends it, so none of them drops the others' parts.
+ */
+
+import { renderResolvedQuestionsSection } from './questions.js';
+import { reviewSection } from './review/report.js';
+import { renderCitationBlock } from './synthesizer.js';
+import type { Citation, QuestionResolution } from './types.js';
+
+/** The tail of the document at `mdPath`; `meta` and `citations` are those of
+ *  the artifact about to be rendered there. */
+export function documentTail(
+	mdPath:    string,
+	meta:      { readonly questionResolutions?: Readonly<Record<string, QuestionResolution>> | undefined },
+	citations: readonly Citation[],
+): string {
+	return renderResolvedQuestionsSection(meta.questionResolutions ?? {})
+		+ renderCitationBlock(citations)
+		+ reviewSection(mdPath);
+}
diff --git a/src/workflow/gates.ts b/src/workflow/gates.ts
index 3b8bbde..3f294b8 100644
--- a/src/workflow/gates.ts
+++ b/src/workflow/gates.ts
@@ -25,6 +25,7 @@ import { makeStaleAck } from './amendments/staleness.js';
 import { listApprovedAmendments } from './amendments/store.js';
 import { renderDefineMarkdown } from './artifacts/define.js';
 import type { DefineArtifact, DefineStory } from './artifacts/define.js';
+import { documentTail } from './document.js';
 import { enforceCodeReviewGate, resolveEnforce } from './code-review/gate.js';
 import type { CodeReviewGateResult } from './code-review/gate.js';
 import type { HldArtifact }    from './artifacts/hld.js';
@@ -169,7 +170,8 @@ export function appendStoryToDefine(repoPath: string, epicHash: string, story: D
 	}
 	const next: DefineArtifact = { ...define, body: { ...define.body, stories: [...define.body.stories, story] } };
 	writeAtomic(paths.json, JSON.stringify(next, null, 2) + '\n');
-	writeAtomic(defineArtifactPaths(repoPath, epicHash, next.meta.epicSlug).md, renderDefineMarkdown(next));
+	const md = defineArtifactPaths(repoPath, epicHash, next.meta.epicSlug).md;
+	writeAtomic(md, renderDefineMarkdown(next) + documentTail(md, next.meta, next.citations ?? []));
 	return next;
 }
 
diff --git a/src/workflow/questions.ts b/src/workflow/questions.ts
index 2481e9b..6063415 100644
--- a/src/workflow/questions.ts
+++ b/src/workflow/questions.ts
@@ -41,6 +41,7 @@ import { renderDefineMarkdown, type DefineArtifact } from './artifacts/define.js
 import { renderHldMarkdown, type HldArtifact } from './artifacts/hld.js';
 import { renderLldMarkdown, type LldArtifact } from './artifacts/lld.js';
 import { resolveGithubConfig } from './config/github.js';
+import { reviewSection } from './review/report.js';
 import { renderCitationBlock } from './synthesizer.js';
 import {
 	ARTIFACTS_DIR,
@@ -425,7 +426,7 @@ export function recordResolution(
 		meta: { ...loc.artifact.meta, questionResolutions: nextResolutions },
 	};
 	writeAtomic(loc.jsonPath, JSON.stringify(next, null, 2) + '\n');
-	writeAtomic(loc.mdPath, loc.renderMd(next, nextResolutions));
+	writeAtomic(loc.mdPath, loc.renderMd(next, nextResolutions) + reviewSection(loc.mdPath));
 
 	const summary = resolutionSummary(kind, epicHash, storyId, qId, resolution);
 	commitAndComment(repoPath, loc.jsonPath, loc.mdPath, loc.trackerRef, summary);
diff --git a/src/workflow/review/report.ts b/src/workflow/review/report.ts
index 4fe78f0..7189075 100644
--- a/src/workflow/review/report.ts
+++ b/src/workflow/review/report.ts
@@ -9,11 +9,21 @@
  * counts; the table lists findings HIGH-first.
  */
 
+import { existsSync, readFileSync } from 'node:fs';
+
 import type { Finding, ReviewReport, Severity } from './types.js';
 
 /** Marks where the rendered review is appended to an artifact's markdown. */
 export const REVIEW_SECTION = '<!-- insrc:review -->';
 
+/** The review section the document on disk carries, '' when it has none. */
+export function reviewSection(mdPath: string): string {
+	if (!existsSync(mdPath)) return '';
+	const md = readFileSync(mdPath, 'utf8');
+	const at = md.indexOf(`\n${REVIEW_SECTION}`);
+	return at === -1 ? '' : md.slice(at);
+}
+
 const VERDICT_EMOJI: Record<ReviewReport['verdict'], string> = {
 	pass:  '✅',
 	warn:  '⚠️',
diff --git a/src/workflow/tracker-auto.ts b/src/workflow/tracker-auto.ts
index 1901e87..d698987 100644
--- a/src/workflow/tracker-auto.ts
+++ b/src/workflow/tracker-auto.ts
@@ -49,9 +49,7 @@ import { patchTrackerMeta, readTrackerMeta, type TrackerMeta } from './tracker/r
 import { epicWorkflowId, storyWorkflowId, taskWorkflowId, safeCanonical } from './id.js';
 import { renderReviewReport } from './review/index.js';
 import type { ReviewReport } from './review/types.js';
-import { renderResolvedQuestionsSection } from './questions.js';
-import { renderCitationBlock } from './synthesizer.js';
-import type { Citation, QuestionResolution } from './types.js';
+import { documentTail } from './document.js';
 
 const log = getLogger('workflow:tracker-auto');
 
@@ -150,8 +148,8 @@ export function autoPushEpicOnHld(hldJsonPath: string): AutoPushResult {
 	patchTrackerMeta(definePaths.json, { epicRef, pushedAt: now });
 	patchTrackerMeta(hldJsonPath, { epicRef, pushedAt: now, ...(created.length > 0 ? { labelsCreated: created } : {}) });
 	// Re-render both docs so each shows the `**Tracker:** owner/repo#N` link.
-	relink(hldArtifactPaths(repoPath, epicHash, epicSlug).md, () => { const a = readHldArtifact(repoPath, epicHash); return withResolvedTail(a.meta, a.citations, renderHldMarkdown(a)); });
-	relink(definePaths.md, () => { const a = readDefineArtifact(repoPath, epicHash); return withResolvedTail(a.meta, a.citations, renderDefineMarkdown(a)); });
+	relink(hldArtifactPaths(repoPath, epicHash, epicSlug).md, md => { const a = readHldArtifact(repoPath, epicHash); return renderHldMarkdown(a) + documentTail(md, a.meta, a.citations); });
+	relink(definePaths.md, md => { const a = readDefineArtifact(repoPath, epicHash); return renderDefineMarkdown(a) + documentTail(md, a.meta, a.citations); });
 
 	if (adopted === undefined) bestEffort('comment', () => ghComment(cfg.owner, cfg.repo, epicRef, renderTrackerHldSummary(readHldArtifact(repoPath, epicHash))));
 	postReviewComment(cfg, epicRef, hldJsonPath);
@@ -220,7 +218,7 @@ export function autoPushStoryOnLld(lldJsonPath: string): AutoPushResult {
 	// The aggregate comes first: the LLD's ref is what marks the push as done.
 	patchTrackerMeta(defineArtifactPaths(repoPath, epicHash, epicSlug).json, { storyRefs: { ...(defineTracker?.storyRefs ?? {}), [storyId]: storyRef } });
 	patchTrackerMeta(lldJsonPath, { storyRef, pushedAt: new Date().toISOString() });
-	relink(lldArtifactPaths(repoPath, epicHash, storyId, epicSlug).md, () => { const a = readLldArtifact(repoPath, epicHash, storyId); return withResolvedTail(a.meta, a.citations, renderLldMarkdown(a)); });
+	relink(lldArtifactPaths(repoPath, epicHash, storyId, epicSlug).md, md => { const a = readLldArtifact(repoPath, epicHash, storyId); return renderLldMarkdown(a) + documentTail(md, a.meta, a.citations); });
 
 	if (adopted === undefined) {
 		bestEffort('tasklist', () => {
@@ -328,23 +326,11 @@ export function autoPushTasksOnPlan(planJsonPath: string): AutoPushResult {
 
 /** Re-render + atomically write a doc's markdown (the JSON meta.tracker
  *  must already be patched so the render picks up the tracker link). */
-function relink(mdPath: string, render: () => string): void {
-	try { writeAtomic(mdPath, render()); }
+function relink(mdPath: string, render: (mdPath: string) => string): void {
+	try { writeAtomic(mdPath, render(mdPath)); }
 	catch (err) { log.warn({ mdPath, err: (err as Error).message }, 'failed to re-render doc with tracker link'); }
 }
 
-/** Append the "## Resolved questions" + "## Citations" tail to a core render,
- *  matching the canonical full-md assembly in `questions.ts`. Without this a
- *  tracker relink re-renders with the bare renderer and silently drops both
- *  sections (the data stays in the JSON — this only restores the md view). */
-function withResolvedTail(
-	meta: { readonly questionResolutions?: Readonly<Record<string, QuestionResolution>> | undefined },
-	citations: readonly Citation[],
-	core: string,
-): string {
-	return core + renderResolvedQuestionsSection(meta.questionResolutions ?? {}) + renderCitationBlock(citations);
-}
-
 /** Run a non-critical side effect; log + swallow failures. */
 function bestEffort(what: string, fn: () => void): void {
 	try { fn(); } catch (err) { log.warn({ what, err: (err as Error).message }, 'tracker side-effect failed'); }
diff --git a/src/workflow/tracker/link.ts b/src/workflow/tracker/link.ts
index a28a10e..cf8d91d 100644
--- a/src/workflow/tracker/link.ts
+++ b/src/workflow/tracker/link.ts
@@ -16,6 +16,7 @@
 
 import { getLogger } from '../../shared/logger.js';
 import { readDefineArtifact, readHldArtifact } from '../gates.js';
+import { documentTail } from '../document.js';
 import { readLldArtifact } from '../artifacts/lld-io.js';
 import { renderDefineMarkdown } from '../artifacts/define.js';
 import { renderHldMarkdown } from '../artifacts/hld.js';
@@ -35,19 +36,19 @@ export interface EpicRefs {
 export function linkDocsToIssues(repoPath: string, epicHash: string, epicSlug: string, refs: EpicRefs): void {
 	if (typeof refs.epicRef === 'string' && refs.epicRef.length > 0) {
 		const epicRef = refs.epicRef;
-		relinkDoc(hldArtifactPaths(repoPath, epicHash, epicSlug), { epicRef }, () => renderHldMarkdown(readHldArtifact(repoPath, epicHash)));
-		relinkDoc(defineArtifactPaths(repoPath, epicHash, epicSlug), { epicRef }, () => renderDefineMarkdown(readDefineArtifact(repoPath, epicHash)));
+		relinkDoc(hldArtifactPaths(repoPath, epicHash, epicSlug), { epicRef }, md => { const a = readHldArtifact(repoPath, epicHash); return renderHldMarkdown(a) + documentTail(md, a.meta, a.citations); });
+		relinkDoc(defineArtifactPaths(repoPath, epicHash, epicSlug), { epicRef }, md => { const a = readDefineArtifact(repoPath, epicHash); return renderDefineMarkdown(a) + documentTail(md, a.meta, a.citations); });
 	}
 	for (const [storyId, storyRef] of Object.entries(refs.storyRefs ?? {})) {
 		if (typeof storyRef !== 'string' || storyRef.length === 0) continue;
-		relinkDoc(lldArtifactPaths(repoPath, epicHash, storyId, epicSlug), { storyRef }, () => renderLldMarkdown(readLldArtifact(repoPath, epicHash, storyId)));
+		relinkDoc(lldArtifactPaths(repoPath, epicHash, storyId, epicSlug), { storyRef }, md => { const a = readLldArtifact(repoPath, epicHash, storyId); return renderLldMarkdown(a) + documentTail(md, a.meta, a.citations); });
 	}
 }
 
-function relinkDoc(paths: { json: string; md: string }, patch: { epicRef?: string; storyRef?: string }, render: () => string): void {
+function relinkDoc(paths: { json: string; md: string }, patch: { epicRef?: string; storyRef?: string }, render: (md: string) => string): void {
 	try {
 		patchTrackerMeta(paths.json, patch);
-		writeAtomic(paths.md, render());
+		writeAtomic(paths.md, render(paths.md));
 	} catch (err) {
 		log.warn({ md: paths.md, err: (err as Error).message }, 'doc→issue linkage skipped');
 	}
-- 
2.43.0


From e7e24212f9db288d6493d5d2ea07ca9319fae4fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:11 +0000
Subject: [PATCH 084/145] fix: tracker calls on an issue go to the repository
 that issue is in

---
 src/workflow/tracker/github.ts | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/workflow/tracker/github.ts b/src/workflow/tracker/github.ts
index 3a36c88..c72947e 100644
--- a/src/workflow/tracker/github.ts
+++ b/src/workflow/tracker/github.ts
@@ -176,29 +176,36 @@ export function ghCreateIssueTyped(
 	return { ref: buildRef(owner, repo, r.number), id: r.id, typed: false };
 }
 
+/** The `owner/repo` an issue ref names — the configured repo only stands in for
+ *  a ref without one. `#5` of another repository is a different issue. */
+function repoOfRef(owner: string, repo: string, ref: string): string {
+	const r = parseIssueRef(ref);
+	return r.owner.length > 0 && r.repo.length > 0 ? `${r.owner}/${r.repo}` : `${owner}/${repo}`;
+}
+
 /** Link an existing issue (`childId` = its REST database id) as a
  *  sub-issue of `parentRef`. Throws on API error (the caller wraps this
  *  in a best-effort guard since sub-issues may be disabled). */
 export function ghLinkSubIssue(owner: string, repo: string, parentRef: string, childId: number): void {
-	silent('gh', ['api', '-X', 'POST', `repos/${owner}/${repo}/issues/${parseIssueRef(parentRef).number}/sub_issues`, '-F', `sub_issue_id=${childId}`]);
+	silent('gh', ['api', '-X', 'POST', `repos/${repoOfRef(owner, repo, parentRef)}/issues/${parseIssueRef(parentRef).number}/sub_issues`, '-F', `sub_issue_id=${childId}`]);
 }
 
 export function ghGetIssueBody(owner: string, repo: string, ref: string): string {
-	return out('gh', ['issue', 'view', parseIssueRef(ref).number, '--repo', `${owner}/${repo}`, '--json', 'body', '-q', '.body']);
+	return out('gh', ['issue', 'view', parseIssueRef(ref).number, '--repo', repoOfRef(owner, repo, ref), '--json', 'body', '-q', '.body']);
 }
 
 export function ghEditIssueBody(owner: string, repo: string, ref: string, body: string): void {
-	silent('gh', ['issue', 'edit', parseIssueRef(ref).number, '--repo', `${owner}/${repo}`, '--body', body]);
+	silent('gh', ['issue', 'edit', parseIssueRef(ref).number, '--repo', repoOfRef(owner, repo, ref), '--body', body]);
 }
 
 /** Post a comment on an issue. */
 export function ghComment(owner: string, repo: string, ref: string, body: string): void {
-	silent('gh', ['issue', 'comment', parseIssueRef(ref).number, '--repo', `${owner}/${repo}`, '--body', body]);
+	silent('gh', ['issue', 'comment', parseIssueRef(ref).number, '--repo', repoOfRef(owner, repo, ref), '--body', body]);
 }
 
 /** Current issue state + status labels — for sync. */
 export function ghGetIssueState(owner: string, repo: string, ref: string): { state: string; labels: string[] } {
-	const raw = out('gh', ['issue', 'view', parseIssueRef(ref).number, '--repo', `${owner}/${repo}`, '--json', 'state,labels']);
+	const raw = out('gh', ['issue', 'view', parseIssueRef(ref).number, '--repo', repoOfRef(owner, repo, ref), '--json', 'state,labels']);
 	const parsed = JSON.parse(raw) as { state?: string; labels?: Array<{ name?: string }> };
 	return {
 		state:  (parsed.state ?? 'OPEN').toLowerCase(),
@@ -227,7 +234,7 @@ export function ghEnsureMilestone(owner: string, repo: string, title: string): v
 }
 
 export function ghAttachMilestone(owner: string, repo: string, ref: string, title: string): void {
-	silent('gh', ['issue', 'edit', parseIssueRef(ref).number, '--repo', `${owner}/${repo}`, '--milestone', title]);
+	silent('gh', ['issue', 'edit', parseIssueRef(ref).number, '--repo', repoOfRef(owner, repo, ref), '--milestone', title]);
 }
 
 // ---------------------------------------------------------------------------
-- 
2.43.0


From 56bbcb872a8e4c92ba35af45fcff0f5fd5fac73a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:11 +0000
Subject: [PATCH 085/145] fix: only a remote on github.com is a GitHub
 repository

---
 src/workflow/tracker/github.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/workflow/tracker/github.ts b/src/workflow/tracker/github.ts
index c72947e..936cd00 100644
--- a/src/workflow/tracker/github.ts
+++ b/src/workflow/tracker/github.ts
@@ -100,7 +100,7 @@ export function gitOriginOwnerRepo(repoPath: string): { readonly owner: string;
 /** Pure parser (SSH + HTTPS). Strips a trailing `.git` rather than
  *  banning dots, so dotted repo names (`owner/react.dev`) parse. */
 export function parseGithubRemoteUrl(url: string): { readonly owner: string; readonly repo: string } | null {
-	const m = /github\.com[:/]([^/]+)\/(.+?)(?:\.git)?\/?$/.exec(url.trim());
+	const m = /^(?:[a-z+]+:\/\/)?(?:[^@/]*@)?(?:(?:www|ssh)\.)?github\.com(?::\d+\/|[:/])\/?([^/]+)\/([^/]+?)(?:\.git)?\/?$/i.exec(url.trim());
 	if (m === null) return null;
 	return { owner: m[1]!, repo: m[2]! };
 }
-- 
2.43.0


From 35d498af100ba66d0c1ecf38d25d6c4c54127afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:33 +0000
Subject: [PATCH 086/145] fix: approving works in a repository whose tracker
 target cannot be resolved

---
 src/cli/services/workflow.ts | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/cli/services/workflow.ts b/src/cli/services/workflow.ts
index 89adb59..b500096 100644
--- a/src/cli/services/workflow.ts
+++ b/src/cli/services/workflow.ts
@@ -55,7 +55,7 @@ import {
 } from '../../workflow/storage.js';
 import { commitAndPushArtifacts, type CommitArtifactsResult } from '../../workflow/tracker/github.js';
 import { runTrackerSetup, type TrackerSetupOptions, type TrackerSetupReport } from '../../workflow/tracker/setup.js';
-import { resolveGithubConfig } from '../../workflow/config/github.js';
+import { GithubConfigError, resolveGithubConfig, type ResolvedGithubConfig } from '../../workflow/config/github.js';
 import { syncTracker, type SyncResult } from '../../workflow/tracker/sync.js';
 import { getLogger } from '../../shared/logger.js';
 import { createRoleRouter } from '../../analyze/context/role-router.js';
@@ -95,7 +95,12 @@ function commitApprovedArtifacts(approval: ApprovalResult): CommitArtifactsResul
 	const { repoPath, epicHash, epicSlug, storyId } = meta;
 	if (typeof repoPath !== 'string' || typeof epicHash !== 'string') return undefined;
 
-	const cfg = resolveGithubConfig(repoPath);
+	let cfg: ResolvedGithubConfig;
+	try { cfg = resolveGithubConfig(repoPath); }
+	catch (err) {
+		if (err instanceof GithubConfigError) return undefined;   // the tracker result already says so
+		throw err;
+	}
 	if (cfg.type !== 'github' || cfg.commitArtifacts === false) return undefined;
 
 	// The files this approval touched: the approved artifact, plus the Define
-- 
2.43.0


From 07417ee732e0f92395a75d7b19fc3408bf2baa72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:33 +0000
Subject: [PATCH 087/145] fix: tracker setup keeps the rest of the github
 configuration

---
 src/workflow/tracker/setup.ts | 44 ++++++++++++++++++++++++++++++-----
 1 file changed, 38 insertions(+), 6 deletions(-)

diff --git a/src/workflow/tracker/setup.ts b/src/workflow/tracker/setup.ts
index 70da74d..2a415d1 100644
--- a/src/workflow/tracker/setup.ts
+++ b/src/workflow/tracker/setup.ts
@@ -25,11 +25,11 @@
  *    tests against a fake `gh`.
  */
 
-import { existsSync, mkdirSync, writeFileSync } from 'node:fs';
+import { existsSync, mkdirSync, readFileSync, writeFileSync } from 'node:fs';
 import { dirname } from 'node:path';
 
 import { getLogger } from '../../shared/logger.js';
-import { githubConfigPath, loadGithubConfigFile, type GithubConfigFile } from '../config/github.js';
+import { githubConfigPath, loadGithubConfigFile, type GithubConfigFile, type GithubEntry } from '../config/github.js';
 import { STATUS_LABELS } from './conventions.js';
 import {
 	ghAddProjectItem,
@@ -134,7 +134,9 @@ export function runTrackerSetup(repoPath: string, opts: TrackerSetupOptions = {}
 	}
 
 	// owner/repo, needed by config + every gh target step.
-	const remote = gitOriginOwnerRepo(repoPath);
+	// The repo's own entry names the tracker's target; its git remote stands in.
+	const own = loadGithubConfigFile(githubConfigPath()).repos?.[repoPath];
+	const remote = ownTarget(own) ?? gitOriginOwnerRepo(repoPath);
 
 	// 3. ~/.insrc/github.json config (no gh needed — always runs).
 	steps.push(ensureConfig(repoPath, remote));
@@ -167,11 +169,16 @@ const CONFIG_TITLE = '~/.insrc/github.json config';
  *  incomplete. Automatable — no gh required. */
 function ensureConfig(repoPath: string, remote: OwnerRepo | null): TrackerSetupStep {
 	if (remote === null) {
-		return { key: CONFIG_KEY, title: CONFIG_TITLE, status: 'failed', detail: 'could not determine owner/repo from `git remote get-url origin` — add a GitHub origin remote' };
+		return { key: CONFIG_KEY, title: CONFIG_TITLE, status: 'failed', detail: 'could not determine owner/repo from the config or `git remote get-url origin` — add a GitHub origin remote' };
 	}
 	const path = githubConfigPath();
+	if (!readableConfig(path)) {
+		// Writing now would replace every other repository's entry.
+		return { key: CONFIG_KEY, title: CONFIG_TITLE, status: 'failed', detail: `${path} exists but is not a JSON object — fix or remove it, then run setup again` };
+	}
 	const file = loadGithubConfigFile(path);
-	const entry = file.repos?.[repoPath] ?? file.default;
+	const own = file.repos?.[repoPath];
+	const entry = own ?? file.default;
 	const complete = entry !== undefined
 		&& entry.type === 'github'
 		&& typeof entry.owner === 'string' && entry.owner.length > 0
@@ -185,7 +192,15 @@ function ensureConfig(repoPath: string, remote: OwnerRepo | null): TrackerSetupS
 		...file,
 		repos: {
 			...file.repos,
-			[repoPath]: { type: 'github', owner: remote.owner, repo: remote.repo, pushTasks: true, commitArtifacts: true },
+			// Merged: the entry's own labels, types and target are the user's choice.
+			[repoPath]: {
+				...own,
+				type: 'github',
+				owner: remote.owner,
+				repo: remote.repo,
+				pushTasks: true,
+				commitArtifacts: true,
+			},
 		},
 	};
 	try {
@@ -198,6 +213,23 @@ function ensureConfig(repoPath: string, remote: OwnerRepo | null): TrackerSetupS
 	return { key: CONFIG_KEY, title: CONFIG_TITLE, status: 'done', detail: `wrote ${path} for ${remote.owner}/${remote.repo} (pushTasks + commitArtifacts on)` };
 }
 
+/** False when a config file is there but does not hold a JSON object. */
+function readableConfig(path: string): boolean {
+	if (!existsSync(path)) return true;
+	try {
+		const parsed = JSON.parse(readFileSync(path, 'utf8')) as unknown;
+		return typeof parsed === 'object' && parsed !== null && !Array.isArray(parsed);
+	} catch { return false; }
+}
+
+/** The GitHub repository an entry names itself, if it names one. */
+function ownTarget(entry: GithubEntry | undefined): OwnerRepo | null {
+	return typeof entry?.owner === 'string' && entry.owner.length > 0
+		&& typeof entry.repo === 'string' && entry.repo.length > 0
+		? { owner: entry.owner, repo: entry.repo }
+		: null;
+}
+
 const LABELS_KEY = 'labels';
 const LABELS_TITLE = 'Tracker labels';
 
-- 
2.43.0


From 312985a5867ff0066a4bee7f846bbd69e8b71409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:47 +0000
Subject: [PATCH 088/145] fix: adding or removing a watched repository while
 another such call is under way leaves the right watches open

---
 src/indexer/index.ts   |  1 +
 src/indexer/watcher.ts | 23 ++++++++++++++++-------
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/indexer/index.ts b/src/indexer/index.ts
index 4bfd147..b0877fe 100644
--- a/src/indexer/index.ts
+++ b/src/indexer/index.ts
@@ -347,6 +347,7 @@ export class IndexerService {
     log.info({ repo: repoPath }, 'repo removed');
     this.registeredRepos.delete(repoPath);
     await this.watcher.removeRepo(repoPath);
+    await this.watcher.removeRepo(projectConfigBase(repoPath));
   }
 
   /** Process a single IndexJob — called by the queue worker loop. */
diff --git a/src/indexer/watcher.ts b/src/indexer/watcher.ts
index 48bc994..9a9cf02 100644
--- a/src/indexer/watcher.ts
+++ b/src/indexer/watcher.ts
@@ -29,7 +29,7 @@ const DEBOUNCE_MS = 200;
  */
 export class Watcher {
   private readonly handlers:     EventHandler[]   = [];
-  private readonly subscriptions: Map<string, parcelWatcher.AsyncSubscription> = new Map();
+  private readonly subscriptions: Map<string, Promise<parcelWatcher.AsyncSubscription>> = new Map();
   private debounceTimer:          ReturnType<typeof setTimeout> | null = null;
   private pendingEvents:          FileEvent[] = [];
 
@@ -42,9 +42,11 @@ export class Watcher {
    *  ignore dir list (from the repo's `.insrc` config); defaults to the
    *  universal `IGNORE_DIRS` for config dirs / older registrations. */
   async addRepo(repoPath: string, ignore: readonly string[] = IGNORE_DIRS): Promise<void> {
-    if (this.subscriptions.has(repoPath)) return;
+    const open = this.subscriptions.get(repoPath);
+    if (open !== undefined) { await open; return; }
 
-    const sub = await parcelWatcher.subscribe(
+    // Recorded before it is open: an add or a remove that overlaps finds it.
+    const sub = parcelWatcher.subscribe(
       repoPath,
       (_err, events) => {
         for (const e of events) {
@@ -59,6 +61,12 @@ export class Watcher {
     );
 
     this.subscriptions.set(repoPath, sub);
+    try {
+      await sub;
+    } catch (err) {
+      if (this.subscriptions.get(repoPath) === sub) this.subscriptions.delete(repoPath);
+      throw err;
+    }
   }
 
   /**
@@ -73,8 +81,8 @@ export class Watcher {
   async removeRepo(repoPath: string): Promise<void> {
     const sub = this.subscriptions.get(repoPath);
     if (sub) {
-      await sub.unsubscribe();
       this.subscriptions.delete(repoPath);
+      await (await sub.catch(() => undefined))?.unsubscribe();
     }
   }
 
@@ -84,10 +92,11 @@ export class Watcher {
       clearTimeout(this.debounceTimer);
       this.debounceTimer = null;
     }
-    for (const sub of this.subscriptions.values()) {
-      await sub.unsubscribe();
-    }
+    const open = [...this.subscriptions.values()];
     this.subscriptions.clear();
+    for (const sub of open) {
+      await (await sub.catch(() => undefined))?.unsubscribe();
+    }
   }
 
   private scheduleDrain(): void {
-- 
2.43.0


From 75785192192903ede2d685b242ef67d5b25a45f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:27 +0000
Subject: [PATCH 089/145] fix: extend and standalone-LLD artifacts record which
 model each step ran on

---
 src/workflow/orchestrator.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/workflow/orchestrator.ts b/src/workflow/orchestrator.ts
index 942c3ad..18b0684 100644
--- a/src/workflow/orchestrator.ts
+++ b/src/workflow/orchestrator.ts
@@ -825,7 +825,7 @@ function finalizeDefine(
 	attribution?: ArtifactModelAttribution,
 ): FinalizeResult {
 	if (defineDecisionOf(stepOutputs) === 'extend') {
-		return finalizeDefineExtend(intent, stepOutputs, runId, elapsedMs, model);
+		return finalizeDefineExtend(intent, stepOutputs, runId, elapsedMs, model, attribution);
 	}
 	if (typeof llmResponse !== 'object' || llmResponse === null) {
 		return { ok: false, failure: schemaFailure(`synthesizer response is not an object`) };
@@ -1491,7 +1491,7 @@ function finalizeDesignStory(
 	// validate against. Skip the HLD cross-artifact checks + amendment back-flow
 	// and stamp the triage provenance instead. See `plans/feature-triage-router.md`.
 	if (intent.params['standalone'] === true) {
-		return finalizeStandaloneLld(intent, runId, elapsedMs, body, citations, model);
+		return finalizeStandaloneLld(intent, runId, elapsedMs, body, citations, model, attribution);
 	}
 
 	// Cross-artifact invariants — LLD must fit approved Epic + HLD.
-- 
2.43.0


From 83175d9271ad92c22478bd53434137c66bc4a636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:12 +0000
Subject: [PATCH 090/145] fix: an acceptance criterion mapped to no test does
 not count as proven

---
 src/workflow/artifacts/lld.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/workflow/artifacts/lld.ts b/src/workflow/artifacts/lld.ts
index c86aeb0..781d7fe 100644
--- a/src/workflow/artifacts/lld.ts
+++ b/src/workflow/artifacts/lld.ts
@@ -540,7 +540,7 @@ export function checkAcceptanceMapping(
 		}
 	}
 	// Every Story acceptance criterion must have at least one proving test.
-	const mapped = new Set(body.testStrategy.acceptanceMapping.map(am => am.criterionId));
+	const mapped = new Set(body.testStrategy.acceptanceMapping.filter(am => am.provingTests.length > 0).map(am => am.criterionId));
 	for (const id of storyAcIds) {
 		if (!mapped.has(id)) {
 			details.push(`Story acceptance criterion '${id}' has no proving test in acceptanceMapping`);
-- 
2.43.0


From ca51a99f9cd8240d312cbf3028566d13c4b9e565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:29 +0000
Subject: [PATCH 091/145] fix: a story that depends on a cycle is not itself
 reported as a cycle

---
 src/workflow/artifacts/define.ts | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/workflow/artifacts/define.ts b/src/workflow/artifacts/define.ts
index fbc9f60..a8c9173 100644
--- a/src/workflow/artifacts/define.ts
+++ b/src/workflow/artifacts/define.ts
@@ -255,18 +255,20 @@ export function checkStoryDependencyGraph(stories: readonly DefineStory[]): read
 		color[id] = 1;
 		stack.push(id);
 		const s = byId[id];
+		let cyclic = false;
 		if (s !== undefined && s.dependsOn !== undefined) {
 			for (const d of s.dependsOn) {
 				if (color[d] === 1) {
 					details.push(`Story dependency cycle: ${[...stack, d].join(' -> ')}`);
-					return true;
+					cyclic = true;
+					break;
 				}
-				if (color[d] === 0 && visit(d)) return true;
+				if (color[d] === 0 && visit(d)) { cyclic = true; break; }
 			}
 		}
 		color[id] = 2;
 		stack.pop();
-		return false;
+		return cyclic;
 	}
 	for (const s of stories) if (color[s.id] === 0) visit(s.id);
 	return details;
-- 
2.43.0


From a3298534eee53f91e9f1d7193f84a82ec3ec68ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:42 +0000
Subject: [PATCH 092/145] fix: git tools refuse arguments that git would read
 as options

---
 src/daemon/tools/builtins/git/branch.ts      | 3 +++
 src/daemon/tools/builtins/git/checkout.ts    | 4 +++-
 src/daemon/tools/builtins/git/cherry-pick.ts | 4 +++-
 src/daemon/tools/builtins/git/fetch.ts       | 4 +++-
 src/daemon/tools/builtins/git/helpers.ts     | 6 ++++++
 src/daemon/tools/builtins/git/merge.ts       | 4 +++-
 src/daemon/tools/builtins/git/pull.ts        | 4 +++-
 src/daemon/tools/builtins/git/push.ts        | 4 +++-
 src/daemon/tools/builtins/git/rebase.ts      | 4 +++-
 src/daemon/tools/builtins/git/remote.ts      | 4 +++-
 src/daemon/tools/builtins/git/reset.ts       | 4 +++-
 src/daemon/tools/builtins/git/revert.ts      | 4 +++-
 src/daemon/tools/builtins/git/stash.ts       | 4 +++-
 src/daemon/tools/builtins/git/tag.ts         | 4 +++-
 src/daemon/tools/builtins/git/worktree.ts    | 4 +++-
 15 files changed, 48 insertions(+), 13 deletions(-)

diff --git a/src/daemon/tools/builtins/git/branch.ts b/src/daemon/tools/builtins/git/branch.ts
index df06f66..0d87204 100644
--- a/src/daemon/tools/builtins/git/branch.ts
+++ b/src/daemon/tools/builtins/git/branch.ts
@@ -10,6 +10,7 @@
  * the destruction explicit.
  */
 
+import { refuseOptionLike } from './helpers.js';
 import { runShell } from '../../shell-helper.js';
 import type { Tool, ToolApprovalGate, ToolInput, ToolResult } from '../../types.js';
 
@@ -94,6 +95,8 @@ export const gitBranchTool: Tool = {
 
   async execute(input: ToolInput): Promise<ToolResult> {
     const cwd = str(input, 'cwd') ?? process.cwd();
+    const refused = refuseOptionLike('git_branch', str(input, 'name'), str(input, 'startPoint'));
+    if (refused) { return refused; }
     const op = (str(input, 'op') ?? 'list') as GitBranchOp;
 
     switch (op) {
diff --git a/src/daemon/tools/builtins/git/checkout.ts b/src/daemon/tools/builtins/git/checkout.ts
index 52fcf2b..72e8de2 100644
--- a/src/daemon/tools/builtins/git/checkout.ts
+++ b/src/daemon/tools/builtins/git/checkout.ts
@@ -12,7 +12,7 @@
 
 import { runShell } from '../../shell-helper.js';
 import type { Tool, ToolApprovalGate, ToolInput, ToolResult } from '../../types.js';
-import { str, fail, spawnFail, currentBranch } from './helpers.js';
+import { str, fail, spawnFail, currentBranch, refuseOptionLike } from './helpers.js';
 
 export type GitCheckoutMode = 'ref' | 'path';
 
@@ -78,6 +78,8 @@ export const gitCheckoutTool: Tool = {
 
   async execute(input: ToolInput): Promise<ToolResult> {
     const cwd = str(input, 'cwd') ?? process.cwd();
+    const refused = refuseOptionLike('git_checkout', str(input, 'ref'));
+    if (refused) { return refused; }
     const mode = (str(input, 'mode') ?? 'ref') as GitCheckoutMode;
 
     if (mode === 'ref') {
diff --git a/src/daemon/tools/builtins/git/cherry-pick.ts b/src/daemon/tools/builtins/git/cherry-pick.ts
index 49c2092..05d0c4e 100644
--- a/src/daemon/tools/builtins/git/cherry-pick.ts
+++ b/src/daemon/tools/builtins/git/cherry-pick.ts
@@ -4,7 +4,7 @@
 
 import { runShell } from '../../shell-helper.js';
 import type { Tool, ToolApprovalGate, ToolInput, ToolResult } from '../../types.js';
-import { str, fail, spawnFail, currentBranch } from './helpers.js';
+import { str, fail, spawnFail, currentBranch, refuseOptionLike } from './helpers.js';
 
 export type GitCherryPickOp = 'start' | 'continue' | 'abort' | 'skip';
 
@@ -59,6 +59,8 @@ export const gitCherryPickTool: Tool = {
 
   async execute(input: ToolInput): Promise<ToolResult> {
     const cwd = str(input, 'cwd') ?? process.cwd();
+    const refused = refuseOptionLike('git:cherry-pick', ...(Array.isArray(input['refs']) ? (input['refs'] as unknown[]).map(String) : []));
+    if (refused) { return refused; }
     const op = (str(input, 'op') ?? 'start') as GitCherryPickOp;
 
     if (op !== 'start') {
diff --git a/src/daemon/tools/builtins/git/fetch.ts b/src/daemon/tools/builtins/git/fetch.ts
index 607bc3d..3d772ac 100644
--- a/src/daemon/tools/builtins/git/fetch.ts
+++ b/src/daemon/tools/builtins/git/fetch.ts
@@ -9,7 +9,7 @@
 
 import { runShell } from '../../shell-helper.js';
 import type { Tool, ToolInput, ToolResult } from '../../types.js';
-import { str, fail, spawnFail } from './helpers.js';
+import { str, fail, spawnFail, refuseOptionLike } from './helpers.js';
 
 export interface GitFetchData {
   remote: string;
@@ -38,6 +38,8 @@ export const gitFetchTool: Tool = {
 
   async execute(input: ToolInput): Promise<ToolResult> {
     const cwd = str(input, 'cwd') ?? process.cwd();
+    const refused = refuseOptionLike('git_fetch', str(input, 'remote'));
+    if (refused) { return refused; }
     const all = input['all'] === true;
     const prune = input['prune'] === true;
     const tags = input['tags'] === true;
diff --git a/src/daemon/tools/builtins/git/helpers.ts b/src/daemon/tools/builtins/git/helpers.ts
index a48c53f..0526d1d 100644
--- a/src/daemon/tools/builtins/git/helpers.ts
+++ b/src/daemon/tools/builtins/git/helpers.ts
@@ -16,6 +16,12 @@ export function isOptionLike(ref: string | undefined): boolean {
   return ref !== undefined && ref.startsWith('-');
 }
 
+/** A name, ref, path or remote that git would read as an option is refused. */
+export function refuseOptionLike(id: string, ...values: (string | undefined)[]): ToolResult | undefined {
+  const bad = values.find(isOptionLike);
+  return bad === undefined ? undefined : fail(id, `invalid argument '${bad}' -- it would be read as an option`, '', 1);
+}
+
 export function spawnFail(id: string, err: string): ToolResult {
   return {
     output: `[${id}] cannot spawn git -- ${err.trim() || 'unknown error'}`,
diff --git a/src/daemon/tools/builtins/git/merge.ts b/src/daemon/tools/builtins/git/merge.ts
index 172a6c9..c42d08c 100644
--- a/src/daemon/tools/builtins/git/merge.ts
+++ b/src/daemon/tools/builtins/git/merge.ts
@@ -10,7 +10,7 @@
 
 import { runShell } from '../../shell-helper.js';
 import type { Tool, ToolApprovalGate, ToolInput, ToolResult } from '../../types.js';
-import { str, fail, spawnFail, currentBranch } from './helpers.js';
+import { str, fail, spawnFail, currentBranch, refuseOptionLike } from './helpers.js';
 
 export interface GitMergeData {
   ref: string;
@@ -71,6 +71,8 @@ export const gitMergeTool: Tool = {
 
   async execute(input: ToolInput): Promise<ToolResult> {
     const cwd = str(input, 'cwd') ?? process.cwd();
+    const refused = refuseOptionLike('git_merge', str(input, 'ref'));
+    if (refused) { return refused; }
     if (input['abort'] === true) {
       const r = await runShell(['git', 'merge', '--abort'], { cwd, timeoutMs: 15_000 });
       if (r.spawnError) { return spawnFail('git_merge', r.stderr); }
diff --git a/src/daemon/tools/builtins/git/pull.ts b/src/daemon/tools/builtins/git/pull.ts
index 567bb88..d2a9b15 100644
--- a/src/daemon/tools/builtins/git/pull.ts
+++ b/src/daemon/tools/builtins/git/pull.ts
@@ -7,7 +7,7 @@
 
 import { runShell } from '../../shell-helper.js';
 import type { Tool, ToolApprovalGate, ToolInput, ToolResult } from '../../types.js';
-import { str, fail, spawnFail, currentBranch } from './helpers.js';
+import { str, fail, spawnFail, currentBranch, refuseOptionLike } from './helpers.js';
 
 export type GitPullMode = 'ff-only' | 'merge' | 'rebase';
 
@@ -58,6 +58,8 @@ export const gitPullTool: Tool = {
 
   async execute(input: ToolInput): Promise<ToolResult> {
     const cwd = str(input, 'cwd') ?? process.cwd();
+    const refused = refuseOptionLike('git_pull', str(input, 'remote'), str(input, 'branch'));
+    if (refused) { return refused; }
     const mode = (str(input, 'mode') ?? 'ff-only') as GitPullMode;
     const remote = str(input, 'remote');
     const branch = str(input, 'branch') ?? (await currentBranch(cwd)) ?? '';
diff --git a/src/daemon/tools/builtins/git/push.ts b/src/daemon/tools/builtins/git/push.ts
index 4761e6b..5404dcd 100644
--- a/src/daemon/tools/builtins/git/push.ts
+++ b/src/daemon/tools/builtins/git/push.ts
@@ -12,7 +12,7 @@
 
 import { runShell } from '../../shell-helper.js';
 import type { Tool, ToolApprovalGate, ToolInput, ToolResult } from '../../types.js';
-import { str, fail, spawnFail, currentBranch, revParse } from './helpers.js';
+import { str, fail, spawnFail, currentBranch, revParse, refuseOptionLike } from './helpers.js';
 
 export interface GitPushData {
   remote: string;
@@ -79,6 +79,8 @@ export const gitPushTool: Tool = {
 
   async execute(input: ToolInput): Promise<ToolResult> {
     const cwd = str(input, 'cwd') ?? process.cwd();
+    const refused = refuseOptionLike('git_push', str(input, 'remote'), str(input, 'ref'));
+    if (refused) { return refused; }
     const remote = str(input, 'remote') ?? 'origin';
     let ref = str(input, 'ref');
     if (!ref) {
diff --git a/src/daemon/tools/builtins/git/rebase.ts b/src/daemon/tools/builtins/git/rebase.ts
index 3b406b4..48da4f0 100644
--- a/src/daemon/tools/builtins/git/rebase.ts
+++ b/src/daemon/tools/builtins/git/rebase.ts
@@ -14,7 +14,7 @@
 
 import { runShell } from '../../shell-helper.js';
 import type { Tool, ToolApprovalGate, ToolInput, ToolResult } from '../../types.js';
-import { str, fail, spawnFail, currentBranch } from './helpers.js';
+import { str, fail, spawnFail, currentBranch, refuseOptionLike } from './helpers.js';
 
 export type GitRebaseOp = 'start' | 'continue' | 'abort' | 'skip';
 
@@ -80,6 +80,8 @@ export const gitRebaseTool: Tool = {
 
   async execute(input: ToolInput): Promise<ToolResult> {
     const cwd = str(input, 'cwd') ?? process.cwd();
+    const refused = refuseOptionLike('git_rebase', str(input, 'onto'), str(input, 'upstream'));
+    if (refused) { return refused; }
     const op = (str(input, 'op') ?? 'start') as GitRebaseOp;
 
     if (op !== 'start') {
diff --git a/src/daemon/tools/builtins/git/remote.ts b/src/daemon/tools/builtins/git/remote.ts
index ff20692..42ae756 100644
--- a/src/daemon/tools/builtins/git/remote.ts
+++ b/src/daemon/tools/builtins/git/remote.ts
@@ -4,7 +4,7 @@
 
 import { runShell } from '../../shell-helper.js';
 import type { Tool, ToolApprovalGate, ToolInput, ToolResult } from '../../types.js';
-import { str, fail, spawnFail } from './helpers.js';
+import { str, fail, spawnFail, refuseOptionLike } from './helpers.js';
 
 export type GitRemoteOp = 'list' | 'add' | 'remove' | 'set-url' | 'rename';
 
@@ -65,6 +65,8 @@ export const gitRemoteTool: Tool = {
 
   async execute(input: ToolInput): Promise<ToolResult> {
     const cwd = str(input, 'cwd') ?? process.cwd();
+    const refused = refuseOptionLike('git_remote', str(input, 'name'), str(input, 'url'), str(input, 'newName'));
+    if (refused) { return refused; }
     const op = (str(input, 'op') ?? 'list') as GitRemoteOp;
 
     if (op === 'list') {
diff --git a/src/daemon/tools/builtins/git/reset.ts b/src/daemon/tools/builtins/git/reset.ts
index 41ee790..d09f2ef 100644
--- a/src/daemon/tools/builtins/git/reset.ts
+++ b/src/daemon/tools/builtins/git/reset.ts
@@ -13,7 +13,7 @@
 
 import { runShell } from '../../shell-helper.js';
 import type { Tool, ToolApprovalGate, ToolInput, ToolResult } from '../../types.js';
-import { str, fail, spawnFail, currentBranch } from './helpers.js';
+import { str, fail, spawnFail, currentBranch, refuseOptionLike } from './helpers.js';
 
 export type GitResetMode = 'soft' | 'mixed' | 'hard';
 
@@ -72,6 +72,8 @@ export const gitResetTool: Tool = {
 
   async execute(input: ToolInput): Promise<ToolResult> {
     const cwd = str(input, 'cwd') ?? process.cwd();
+    const refused = refuseOptionLike('git_reset', str(input, 'ref'));
+    if (refused) { return refused; }
     const mode = (str(input, 'mode') ?? 'mixed') as GitResetMode;
     const ref = str(input, 'ref');
     if (!ref) { return fail('git_reset', 'missing ref', '', 1); }
diff --git a/src/daemon/tools/builtins/git/revert.ts b/src/daemon/tools/builtins/git/revert.ts
index 985540d..78ea7c5 100644
--- a/src/daemon/tools/builtins/git/revert.ts
+++ b/src/daemon/tools/builtins/git/revert.ts
@@ -8,7 +8,7 @@
 
 import { runShell } from '../../shell-helper.js';
 import type { Tool, ToolApprovalGate, ToolInput, ToolResult } from '../../types.js';
-import { str, fail, spawnFail, currentBranch } from './helpers.js';
+import { str, fail, spawnFail, currentBranch, refuseOptionLike } from './helpers.js';
 
 export type GitRevertOp = 'start' | 'continue' | 'abort' | 'skip';
 
@@ -63,6 +63,8 @@ export const gitRevertTool: Tool = {
 
   async execute(input: ToolInput): Promise<ToolResult> {
     const cwd = str(input, 'cwd') ?? process.cwd();
+    const refused = refuseOptionLike('git_revert', ...(Array.isArray(input['refs']) ? (input['refs'] as unknown[]).map(String) : []));
+    if (refused) { return refused; }
     const op = (str(input, 'op') ?? 'start') as GitRevertOp;
 
     if (op !== 'start') {
diff --git a/src/daemon/tools/builtins/git/stash.ts b/src/daemon/tools/builtins/git/stash.ts
index de9a1e3..cefa401 100644
--- a/src/daemon/tools/builtins/git/stash.ts
+++ b/src/daemon/tools/builtins/git/stash.ts
@@ -13,7 +13,7 @@
 
 import { runShell } from '../../shell-helper.js';
 import type { Tool, ToolApprovalGate, ToolInput, ToolResult } from '../../types.js';
-import { str, fail, spawnFail } from './helpers.js';
+import { str, fail, spawnFail, refuseOptionLike } from './helpers.js';
 
 export type GitStashOp = 'list' | 'push' | 'pop' | 'apply' | 'drop' | 'clear' | 'show';
 
@@ -73,6 +73,8 @@ export const gitStashTool: Tool = {
 
   async execute(input: ToolInput): Promise<ToolResult> {
     const cwd = str(input, 'cwd') ?? process.cwd();
+    const refused = refuseOptionLike('git_stash', str(input, 'ref'));
+    if (refused) { return refused; }
     const op = (str(input, 'op') ?? 'push') as GitStashOp;
 
     if (op === 'list') {
diff --git a/src/daemon/tools/builtins/git/tag.ts b/src/daemon/tools/builtins/git/tag.ts
index b28e836..630bfef 100644
--- a/src/daemon/tools/builtins/git/tag.ts
+++ b/src/daemon/tools/builtins/git/tag.ts
@@ -4,7 +4,7 @@
 
 import { runShell } from '../../shell-helper.js';
 import type { Tool, ToolApprovalGate, ToolInput, ToolResult } from '../../types.js';
-import { str, fail, spawnFail } from './helpers.js';
+import { str, fail, spawnFail, refuseOptionLike } from './helpers.js';
 
 export type GitTagOp = 'list' | 'create' | 'delete';
 
@@ -64,6 +64,8 @@ export const gitTagTool: Tool = {
 
   async execute(input: ToolInput): Promise<ToolResult> {
     const cwd = str(input, 'cwd') ?? process.cwd();
+    const refused = refuseOptionLike('git_tag', str(input, 'name'), str(input, 'ref'), str(input, 'pattern'));
+    if (refused) { return refused; }
     const op = (str(input, 'op') ?? 'list') as GitTagOp;
 
     if (op === 'list') {
diff --git a/src/daemon/tools/builtins/git/worktree.ts b/src/daemon/tools/builtins/git/worktree.ts
index ec57ea8..98e29a3 100644
--- a/src/daemon/tools/builtins/git/worktree.ts
+++ b/src/daemon/tools/builtins/git/worktree.ts
@@ -4,7 +4,7 @@
 
 import { runShell } from '../../shell-helper.js';
 import type { Tool, ToolApprovalGate, ToolInput, ToolResult } from '../../types.js';
-import { str, fail, spawnFail } from './helpers.js';
+import { str, fail, spawnFail, refuseOptionLike } from './helpers.js';
 
 export type GitWorktreeOp = 'list' | 'add' | 'remove' | 'move' | 'prune';
 
@@ -74,6 +74,8 @@ export const gitWorktreeTool: Tool = {
 
   async execute(input: ToolInput): Promise<ToolResult> {
     const cwd = str(input, 'cwd') ?? process.cwd();
+    const refused = refuseOptionLike('git_worktree', str(input, 'path'), str(input, 'newPath'), str(input, 'branch'));
+    if (refused) { return refused; }
     const op = (str(input, 'op') ?? 'list') as GitWorktreeOp;
 
     if (op === 'list') {
-- 
2.43.0


From 937f845ef4f78e619400578764fb374f137297e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:42 +0000
Subject: [PATCH 093/145] fix: the force-push guard judges the branch a push
 would update, however it is spelled

---
 src/daemon/tools/builtins/git/push.ts | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/daemon/tools/builtins/git/push.ts b/src/daemon/tools/builtins/git/push.ts
index 5404dcd..6be52eb 100644
--- a/src/daemon/tools/builtins/git/push.ts
+++ b/src/daemon/tools/builtins/git/push.ts
@@ -22,7 +22,15 @@ export interface GitPushData {
   forceMode?: 'none' | 'lease' | 'raw';
 }
 
-const PROTECTED_REFS = /^(main|master|release\/|trunk)/i;
+const PROTECTED_REFS = /^(?:(?:main|master|trunk)$|release\/)/i;
+
+/** Whether pushing `ref` (a branch, HEAD or a `[+]src:dst` refspec) updates a protected branch. */
+async function updatesProtected(cwd: string, ref: string): Promise<boolean> {
+  const dst = ref.replace(/^\+/, '').replace(/^.*:/, '');
+  if (dst === '' || dst.includes('*')) { return true; }  // every branch they have in common
+  const branch = dst === 'HEAD' || dst === '@' ? (await currentBranch(cwd)) ?? dst : dst;
+  return PROTECTED_REFS.test(branch.replace(/^(?:refs\/)?heads\//, ''));
+}
 
 export const gitPushTool: Tool = {
   id: 'git_push',
@@ -53,10 +61,10 @@ export const gitPushTool: Tool = {
       ref = br ?? '(detached HEAD)';
     }
     const force = input['force'] === true;
-    const forceRaw = input['forceRaw'] === true;
+    const forceRaw = input['forceRaw'] === true || ref.startsWith('+');
     const forceMode = forceRaw ? 'raw --force' : force ? '--force-with-lease' : 'none';
     const dry = input['dryRun'] === true;
-    const protectedRef = PROTECTED_REFS.test(ref);
+    const protectedRef = await updatesProtected(cwd, ref);
 
     const lines: string[] = [];
     lines.push(`Repo: \`${cwd}\``);
@@ -92,11 +100,11 @@ export const gitPushTool: Tool = {
     }
 
     const force = input['force'] === true;
-    const forceRaw = input['forceRaw'] === true;
+    const forceRaw = input['forceRaw'] === true || ref.startsWith('+');
     const setUpstream = input['setUpstream'] === true;
     const tags = input['tags'] === true;
     const dryRun = input['dryRun'] === true;
-    const protectedRef = PROTECTED_REFS.test(ref);
+    const protectedRef = await updatesProtected(cwd, ref);
     const forceToMain = input['forceToMain'] === true;
 
     if ((force || forceRaw) && protectedRef && !forceToMain) {
@@ -119,7 +127,7 @@ export const gitPushTool: Tool = {
     if (result.spawnError) { return spawnFail('git_push', result.stderr); }
     if (result.code !== 0) { return fail('git_push', result.stderr, result.stdout, result.code); }
 
-    const shortSha = await revParse(cwd, ref);
+    const shortSha = await revParse(cwd, ref.replace(/^\+/, '').replace(/:.*$/, ''));
     const data: GitPushData = {
       remote,
       ref,
-- 
2.43.0


From d7d68db3eda67fb3c2b713225610ad3336db8f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:01 +0000
Subject: [PATCH 094/145] fix: git tools list staged and conflicting paths by
 their real names

---
 src/daemon/tools/builtins/git/cherry-pick.ts | 6 ++----
 src/daemon/tools/builtins/git/helpers.ts     | 6 ++++++
 src/daemon/tools/builtins/git/merge.ts       | 6 ++----
 src/daemon/tools/builtins/git/rebase.ts      | 6 ++----
 src/daemon/tools/builtins/git/revert.ts      | 6 ++----
 src/daemon/tools/builtins/git/stage.ts       | 6 ++----
 6 files changed, 16 insertions(+), 20 deletions(-)

diff --git a/src/daemon/tools/builtins/git/cherry-pick.ts b/src/daemon/tools/builtins/git/cherry-pick.ts
index 05d0c4e..7ce183b 100644
--- a/src/daemon/tools/builtins/git/cherry-pick.ts
+++ b/src/daemon/tools/builtins/git/cherry-pick.ts
@@ -4,7 +4,7 @@
 
 import { runShell } from '../../shell-helper.js';
 import type { Tool, ToolApprovalGate, ToolInput, ToolResult } from '../../types.js';
-import { str, fail, spawnFail, currentBranch, refuseOptionLike } from './helpers.js';
+import { str, fail, spawnFail, currentBranch, refuseOptionLike, changedPaths } from './helpers.js';
 
 export type GitCherryPickOp = 'start' | 'continue' | 'abort' | 'skip';
 
@@ -113,7 +113,5 @@ async function conflictResult(op: GitCherryPickOp, refs: string[], conflicts: st
 }
 
 async function listConflicts(cwd: string): Promise<string[]> {
-  const r = await runShell(['git', 'diff', '--name-only', '--diff-filter=U'], { cwd, timeoutMs: 10_000 });
-  if (r.code !== 0) { return []; }
-  return r.stdout.split('\n').map(s => s.trim()).filter(Boolean);
+  return changedPaths(cwd, '--diff-filter=U');
 }
diff --git a/src/daemon/tools/builtins/git/helpers.ts b/src/daemon/tools/builtins/git/helpers.ts
index 0526d1d..d895d34 100644
--- a/src/daemon/tools/builtins/git/helpers.ts
+++ b/src/daemon/tools/builtins/git/helpers.ts
@@ -102,6 +102,12 @@ export function parseRawNumstat(out: string): GitDiffFileStat[] {
   return files;
 }
 
+/** Paths listed by a `git diff --name-only` variant, exactly as they are named. */
+export async function changedPaths(cwd: string, ...args: string[]): Promise<string[]> {
+  const r = await runShell(['git', 'diff', '--name-only', '-z', ...args], { cwd, timeoutMs: 10_000 });
+  return r.code === 0 ? r.stdout.split('\0').filter(Boolean) : [];
+}
+
 /** Short summary of staged changes for the approval gate. */
 export async function stagedSummary(cwd: string, maxFiles = 20): Promise<string> {
   const res = await runShell(['git', 'diff', '--cached', '--numstat'], { cwd, timeoutMs: 5_000 });
diff --git a/src/daemon/tools/builtins/git/merge.ts b/src/daemon/tools/builtins/git/merge.ts
index c42d08c..604bc99 100644
--- a/src/daemon/tools/builtins/git/merge.ts
+++ b/src/daemon/tools/builtins/git/merge.ts
@@ -10,7 +10,7 @@
 
 import { runShell } from '../../shell-helper.js';
 import type { Tool, ToolApprovalGate, ToolInput, ToolResult } from '../../types.js';
-import { str, fail, spawnFail, currentBranch, refuseOptionLike } from './helpers.js';
+import { str, fail, spawnFail, currentBranch, refuseOptionLike, changedPaths } from './helpers.js';
 
 export interface GitMergeData {
   ref: string;
@@ -143,7 +143,5 @@ export const gitMergeTool: Tool = {
 };
 
 async function listConflicts(cwd: string): Promise<string[]> {
-  const r = await runShell(['git', 'diff', '--name-only', '--diff-filter=U'], { cwd, timeoutMs: 10_000 });
-  if (r.code !== 0) { return []; }
-  return r.stdout.split('\n').map(s => s.trim()).filter(Boolean);
+  return changedPaths(cwd, '--diff-filter=U');
 }
diff --git a/src/daemon/tools/builtins/git/rebase.ts b/src/daemon/tools/builtins/git/rebase.ts
index 48da4f0..171ab45 100644
--- a/src/daemon/tools/builtins/git/rebase.ts
+++ b/src/daemon/tools/builtins/git/rebase.ts
@@ -14,7 +14,7 @@
 
 import { runShell } from '../../shell-helper.js';
 import type { Tool, ToolApprovalGate, ToolInput, ToolResult } from '../../types.js';
-import { str, fail, spawnFail, currentBranch, refuseOptionLike } from './helpers.js';
+import { str, fail, spawnFail, currentBranch, refuseOptionLike, changedPaths } from './helpers.js';
 
 export type GitRebaseOp = 'start' | 'continue' | 'abort' | 'skip';
 
@@ -147,9 +147,7 @@ async function conflictResult(op: GitRebaseOp, cwd: string, conflicts: string[],
 }
 
 async function listConflicts(cwd: string): Promise<string[]> {
-  const r = await runShell(['git', 'diff', '--name-only', '--diff-filter=U'], { cwd, timeoutMs: 10_000 });
-  if (r.code !== 0) { return []; }
-  return r.stdout.split('\n').map(s => s.trim()).filter(Boolean);
+  return changedPaths(cwd, '--diff-filter=U');
 }
 
 async function alreadyPushed(cwd: string): Promise<boolean> {
diff --git a/src/daemon/tools/builtins/git/revert.ts b/src/daemon/tools/builtins/git/revert.ts
index 78ea7c5..8aebed5 100644
--- a/src/daemon/tools/builtins/git/revert.ts
+++ b/src/daemon/tools/builtins/git/revert.ts
@@ -8,7 +8,7 @@
 
 import { runShell } from '../../shell-helper.js';
 import type { Tool, ToolApprovalGate, ToolInput, ToolResult } from '../../types.js';
-import { str, fail, spawnFail, currentBranch, refuseOptionLike } from './helpers.js';
+import { str, fail, spawnFail, currentBranch, refuseOptionLike, changedPaths } from './helpers.js';
 
 export type GitRevertOp = 'start' | 'continue' | 'abort' | 'skip';
 
@@ -117,7 +117,5 @@ async function conflictResult(op: GitRevertOp, refs: string[], conflicts: string
 }
 
 async function listConflicts(cwd: string): Promise<string[]> {
-  const r = await runShell(['git', 'diff', '--name-only', '--diff-filter=U'], { cwd, timeoutMs: 10_000 });
-  if (r.code !== 0) { return []; }
-  return r.stdout.split('\n').map(s => s.trim()).filter(Boolean);
+  return changedPaths(cwd, '--diff-filter=U');
 }
diff --git a/src/daemon/tools/builtins/git/stage.ts b/src/daemon/tools/builtins/git/stage.ts
index 99df6f3..f015f29 100644
--- a/src/daemon/tools/builtins/git/stage.ts
+++ b/src/daemon/tools/builtins/git/stage.ts
@@ -6,6 +6,7 @@
  * what's about to move between worktree and index.
  */
 
+import { changedPaths } from './helpers.js';
 import { runShell } from '../../shell-helper.js';
 import type { Tool, ToolApprovalGate, ToolInput, ToolResult } from '../../types.js';
 
@@ -98,10 +99,7 @@ export const gitStageTool: Tool = {
     // Capture post-state for the response: which paths still show up
     // in `git diff --cached --name-only`. Lets the caller verify the
     // staging area without running git:status separately.
-    const post = await runShell(['git', 'diff', '--cached', '--name-only'], { cwd, timeoutMs: 10_000 });
-    const indexAfter = post.code === 0
-      ? post.stdout.split('\n').map(s => s.trim()).filter(Boolean)
-      : [];
+    const indexAfter = await changedPaths(cwd, '--cached');
 
     const data: GitStageData = { op, paths, indexAfter };
     const verb = op === 'stage' ? 'Staged' : 'Unstaged';
-- 
2.43.0


From 9e379489bba820da0bf46b69a38f759b5c5442cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:57 +0000
Subject: [PATCH 095/145] fix: continuing a rebase, cherry-pick or revert does
 not wait for an editor

---
 src/daemon/tools/builtins/git/cherry-pick.ts | 4 ++--
 src/daemon/tools/builtins/git/helpers.ts     | 5 +++++
 src/daemon/tools/builtins/git/rebase.ts      | 4 ++--
 src/daemon/tools/builtins/git/revert.ts      | 4 ++--
 4 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/daemon/tools/builtins/git/cherry-pick.ts b/src/daemon/tools/builtins/git/cherry-pick.ts
index 7ce183b..7d519aa 100644
--- a/src/daemon/tools/builtins/git/cherry-pick.ts
+++ b/src/daemon/tools/builtins/git/cherry-pick.ts
@@ -4,7 +4,7 @@
 
 import { runShell } from '../../shell-helper.js';
 import type { Tool, ToolApprovalGate, ToolInput, ToolResult } from '../../types.js';
-import { str, fail, spawnFail, currentBranch, refuseOptionLike, changedPaths } from './helpers.js';
+import { str, fail, spawnFail, currentBranch, refuseOptionLike, changedPaths, noEditorEnv } from './helpers.js';
 
 export type GitCherryPickOp = 'start' | 'continue' | 'abort' | 'skip';
 
@@ -64,7 +64,7 @@ export const gitCherryPickTool: Tool = {
     const op = (str(input, 'op') ?? 'start') as GitCherryPickOp;
 
     if (op !== 'start') {
-      const r = await runShell(['git', 'cherry-pick', `--${op}`], { cwd, timeoutMs: 60_000 });
+      const r = await runShell(['git', 'cherry-pick', `--${op}`], { cwd, timeoutMs: 60_000, env: noEditorEnv() });
       if (r.spawnError) { return spawnFail('git:cherry-pick', r.stderr); }
       if (r.code !== 0) {
         const conflicts = await listConflicts(cwd);
diff --git a/src/daemon/tools/builtins/git/helpers.ts b/src/daemon/tools/builtins/git/helpers.ts
index d895d34..496a62a 100644
--- a/src/daemon/tools/builtins/git/helpers.ts
+++ b/src/daemon/tools/builtins/git/helpers.ts
@@ -16,6 +16,11 @@ export function isOptionLike(ref: string | undefined): boolean {
   return ref !== undefined && ref.startsWith('-');
 }
 
+/** Environment of a git command that must take its prepared message as it is. */
+export function noEditorEnv(): NodeJS.ProcessEnv {
+  return { ...process.env, GIT_EDITOR: 'true' };
+}
+
 /** A name, ref, path or remote that git would read as an option is refused. */
 export function refuseOptionLike(id: string, ...values: (string | undefined)[]): ToolResult | undefined {
   const bad = values.find(isOptionLike);
diff --git a/src/daemon/tools/builtins/git/rebase.ts b/src/daemon/tools/builtins/git/rebase.ts
index 171ab45..876e38a 100644
--- a/src/daemon/tools/builtins/git/rebase.ts
+++ b/src/daemon/tools/builtins/git/rebase.ts
@@ -14,7 +14,7 @@
 
 import { runShell } from '../../shell-helper.js';
 import type { Tool, ToolApprovalGate, ToolInput, ToolResult } from '../../types.js';
-import { str, fail, spawnFail, currentBranch, refuseOptionLike, changedPaths } from './helpers.js';
+import { str, fail, spawnFail, currentBranch, refuseOptionLike, changedPaths, noEditorEnv } from './helpers.js';
 
 export type GitRebaseOp = 'start' | 'continue' | 'abort' | 'skip';
 
@@ -86,7 +86,7 @@ export const gitRebaseTool: Tool = {
 
     if (op !== 'start') {
       const argv = ['git', 'rebase', `--${op}`];
-      const r = await runShell(argv, { cwd, timeoutMs: 120_000 });
+      const r = await runShell(argv, { cwd, timeoutMs: 120_000, env: noEditorEnv() });
       if (r.spawnError) { return spawnFail('git_rebase', r.stderr); }
       if (r.code !== 0) {
         const conflicts = await listConflicts(cwd);
diff --git a/src/daemon/tools/builtins/git/revert.ts b/src/daemon/tools/builtins/git/revert.ts
index 8aebed5..bb8eb39 100644
--- a/src/daemon/tools/builtins/git/revert.ts
+++ b/src/daemon/tools/builtins/git/revert.ts
@@ -8,7 +8,7 @@
 
 import { runShell } from '../../shell-helper.js';
 import type { Tool, ToolApprovalGate, ToolInput, ToolResult } from '../../types.js';
-import { str, fail, spawnFail, currentBranch, refuseOptionLike, changedPaths } from './helpers.js';
+import { str, fail, spawnFail, currentBranch, refuseOptionLike, changedPaths, noEditorEnv } from './helpers.js';
 
 export type GitRevertOp = 'start' | 'continue' | 'abort' | 'skip';
 
@@ -68,7 +68,7 @@ export const gitRevertTool: Tool = {
     const op = (str(input, 'op') ?? 'start') as GitRevertOp;
 
     if (op !== 'start') {
-      const r = await runShell(['git', 'revert', `--${op}`], { cwd, timeoutMs: 60_000 });
+      const r = await runShell(['git', 'revert', `--${op}`], { cwd, timeoutMs: 60_000, env: noEditorEnv() });
       if (r.spawnError) { return spawnFail('git_revert', r.stderr); }
       if (r.code !== 0) {
         const conflicts = await listConflicts(cwd);
-- 
2.43.0


From 2609773768d00127a4b6797be5efb3aebd4961fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:58 +0000
Subject: [PATCH 096/145] fix: listing stashes names the branch of those saved
 with a message

---
 src/daemon/tools/builtins/git/stash.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/daemon/tools/builtins/git/stash.ts b/src/daemon/tools/builtins/git/stash.ts
index cefa401..08865ff 100644
--- a/src/daemon/tools/builtins/git/stash.ts
+++ b/src/daemon/tools/builtins/git/stash.ts
@@ -86,7 +86,7 @@ export const gitStashTool: Tool = {
         if (!line.trim()) { continue; }
         const [ref, ...msgParts] = line.split('\t');
         const msg = msgParts.join('\t');
-        const match = msg.match(/^(?:WIP )?on ([^:]+):\s*(.*)$/);
+        const match = msg.match(/^(?:WIP on|On) ([^:]+):\s*(.*)$/);
         entries.push({
           ref: (ref ?? '').trim(),
           branch: match ? match[1]!.trim() : '',
-- 
2.43.0


From effaa9ee3ef3291744047bf8a4610410a1e18edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:58 +0000
Subject: [PATCH 097/145] fix: a remote whose URL has spaces is listed

---
 src/daemon/tools/builtins/git/remote.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/daemon/tools/builtins/git/remote.ts b/src/daemon/tools/builtins/git/remote.ts
index 42ae756..24c9d70 100644
--- a/src/daemon/tools/builtins/git/remote.ts
+++ b/src/daemon/tools/builtins/git/remote.ts
@@ -126,7 +126,7 @@ function parseRemotes(raw: string): GitRemoteEntry[] {
   for (const line of raw.split('\n')) {
     const trimmed = line.trim();
     if (!trimmed) { continue; }
-    const match = trimmed.match(/^(\S+)\s+(\S+)\s+\((fetch|push)\)$/);
+    const match = trimmed.match(/^(\S+)\s+(.+)\s+\((fetch|push)\)(?: \[.*\])?$/);
     if (!match) { continue; }
     const [, name, url, kind] = match;
     if (!name || !url || !kind) { continue; }
-- 
2.43.0


From 20a09f36e5fc65ec5e67067dc1db171703d9a85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:33 +0000
Subject: [PATCH 098/145] fix: a pull of a named branch without a remote, or a
 dry run, pulls what was asked

---
 src/daemon/tools/builtins/git/pull.ts | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/daemon/tools/builtins/git/pull.ts b/src/daemon/tools/builtins/git/pull.ts
index d2a9b15..9028683 100644
--- a/src/daemon/tools/builtins/git/pull.ts
+++ b/src/daemon/tools/builtins/git/pull.ts
@@ -61,8 +61,11 @@ export const gitPullTool: Tool = {
     const refused = refuseOptionLike('git_pull', str(input, 'remote'), str(input, 'branch'));
     if (refused) { return refused; }
     const mode = (str(input, 'mode') ?? 'ff-only') as GitPullMode;
-    const remote = str(input, 'remote');
-    const branch = str(input, 'branch') ?? (await currentBranch(cwd)) ?? '';
+    const asked = str(input, 'branch');
+    const current = await currentBranch(cwd);
+    const branch = asked ?? current ?? '';
+    // git takes a branch only together with its remote.
+    const remote = str(input, 'remote') ?? (asked !== undefined ? await trackedRemote(cwd, current) : undefined);
     const autostash = input['autostash'] === true;
     const dryRun = input['dryRun'] === true;
 
@@ -72,7 +75,7 @@ export const gitPullTool: Tool = {
       // half-applied integration.
       const argv = ['git', 'fetch'];
       if (remote) { argv.push(remote); }
-      if (branch) { argv.push(branch); }
+      if (branch && remote) { argv.push(branch); }
       const result = await runShell(argv, { cwd, timeoutMs: 120_000 });
       if (result.spawnError) { return spawnFail('git_pull', result.stderr); }
       if (result.code !== 0) { return fail('git_pull', result.stderr, result.stdout, result.code); }
@@ -108,6 +111,12 @@ export const gitPullTool: Tool = {
   },
 };
 
+/** The remote the current branch tracks, else `origin`. */
+async function trackedRemote(cwd: string, current: string | undefined): Promise<string> {
+  const r = current === undefined ? undefined : await runShell(['git', 'config', '--get', `branch.${current}.remote`], { cwd, timeoutMs: 5_000 });
+  return r?.stdout.trim() || 'origin';
+}
+
 function mergeStreams(res: { stdout: string; stderr: string }): string {
   const parts: string[] = [];
   if (res.stdout.trim()) { parts.push(res.stdout.trim()); }
-- 
2.43.0


From 24ac09dc10e23404a05a7ba01551cba210eaf4eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:34 +0000
Subject: [PATCH 099/145] fix: a reset asks for a force push exactly when it
 drops published commits

---
 src/daemon/tools/builtins/git/reset.ts | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/daemon/tools/builtins/git/reset.ts b/src/daemon/tools/builtins/git/reset.ts
index d09f2ef..a6c52ab 100644
--- a/src/daemon/tools/builtins/git/reset.ts
+++ b/src/daemon/tools/builtins/git/reset.ts
@@ -103,10 +103,8 @@ export const gitResetTool: Tool = {
 };
 
 async function willNeedForcePush(cwd: string, ref: string): Promise<boolean> {
-  // Force push is needed when HEAD, after reset, is behind @{upstream}.
-  // We approximate by checking whether the target `ref` is an ancestor
-  // of the upstream -- if so, moving HEAD there rewinds history relative
-  // to the remote.
-  const r = await runShell(['git', 'merge-base', '--is-ancestor', ref, '@{upstream}'], { cwd, timeoutMs: 5_000 });
-  return r.code === 0;
+  // Force push is needed when HEAD, after reset, lacks commits of @{upstream}
+  // (merge-base: 1 = not an ancestor, other codes = no upstream or no such ref).
+  const r = await runShell(['git', 'merge-base', '--is-ancestor', '@{upstream}', ref], { cwd, timeoutMs: 5_000 });
+  return r.code === 1;
 }
-- 
2.43.0


From 673a78509d4c87a9c7d36745073696cfc8c0e22f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:34 +0000
Subject: [PATCH 100/145] fix: blame of a range given only by its end is
 limited to it

---
 src/daemon/tools/builtins/git/blame.ts | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/daemon/tools/builtins/git/blame.ts b/src/daemon/tools/builtins/git/blame.ts
index d788dc5..444335b 100644
--- a/src/daemon/tools/builtins/git/blame.ts
+++ b/src/daemon/tools/builtins/git/blame.ts
@@ -67,6 +67,7 @@ export const gitBlameTool: Tool = {
     if (ignoreWhitespace) { argv.push('-w'); }
     if (start && end) { argv.push('-L', `${start},${end}`); }
     else if (start)   { argv.push('-L', `${start},`); }
+    else if (end)     { argv.push('-L', `1,${end}`); }
     argv.push(ref, '--', path);
 
     const result = await runShell(argv, { cwd, timeoutMs: 30_000, maxBytes: 4 * 1024 * 1024 });
-- 
2.43.0


From 254e60ab9ce1711c00a2032d04fa4c4adf346534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:28 +0000
Subject: [PATCH 101/145] fix: git_show reads the commit's metadata when the
 commit does not touch the path

---
 src/daemon/tools/builtins/git/show.ts | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/daemon/tools/builtins/git/show.ts b/src/daemon/tools/builtins/git/show.ts
index 0703af6..e97206e 100644
--- a/src/daemon/tools/builtins/git/show.ts
+++ b/src/daemon/tools/builtins/git/show.ts
@@ -63,7 +63,6 @@ export const gitShowTool: Tool = {
     // Header fetch. Kept separate from the diff fetch so we can return
     // meaningful metadata even if the diff times out or overflows.
     const headerArgv = ['git', 'show', '--no-color', '--no-patch', `--pretty=format:${HEADER_PRETTY}`, ref];
-    if (path) { headerArgv.push('--', path); }
     const header = await runShell(headerArgv, { cwd, timeoutMs: 15_000 });
 
     if (header.spawnError) {
-- 
2.43.0


From 961c38144081b70d249faa92252a93058a397c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:42 +0000
Subject: [PATCH 102/145] fix: file data sources return dates, decimals and
 nested records as such, not as the engine's internal objects

---
 src/daemon/db/drivers/duckdb-file.ts | 40 ++++++++++++++++++++++++++--
 1 file changed, 38 insertions(+), 2 deletions(-)

diff --git a/src/daemon/db/drivers/duckdb-file.ts b/src/daemon/db/drivers/duckdb-file.ts
index 7572730..ab71198 100644
--- a/src/daemon/db/drivers/duckdb-file.ts
+++ b/src/daemon/db/drivers/duckdb-file.ts
@@ -58,6 +58,14 @@ import type {
 	TemporalTrendRequest,
 	TemporalTrendResult,
 } from '../../../shared/db-driver.js';
+import {
+	DuckDBArrayValue,
+	DuckDBDecimalValue,
+	DuckDBListValue,
+	DuckDBMapValue,
+	DuckDBStructValue,
+	DuckDBUnionValue,
+} from '@duckdb/node-api';
 import { registerDriver } from '../registry.js';
 import { withConnection } from '../duckdb-pool.js';
 import { clampFileLimit } from './file-common.js';
@@ -91,8 +99,13 @@ const log = getLogger('db-duckdb-file');
  * BigInt is opaque to `JSON.stringify` (which throws) and not safely
  * representable when the value crosses IPC. Normalize at the driver
  * boundary: safe-integer bigints become `number`; everything else
- * becomes a string. Other typed values pass through. Recurses into
- * nested objects + arrays so list/struct columns are covered.
+ * becomes a string. Recurses into nested objects + arrays so list/struct
+ * columns are covered.
+ *
+ * The binding's own value objects are unwrapped as well: structs and maps
+ * become plain objects, lists and arrays become arrays, decimals become
+ * numbers (strings when a number cannot hold them), and every other value
+ * (date, timestamp, time, interval, uuid, blob, ...) its SQL text.
  */
 function normalizeBigInts<T>(value: T): T {
 	if (typeof value === 'bigint') {
@@ -105,6 +118,29 @@ function normalizeBigInts<T>(value: T): T {
 	if (Array.isArray(value)) {
 		return value.map(v => normalizeBigInts(v)) as unknown as T;
 	}
+	if (value instanceof DuckDBListValue || value instanceof DuckDBArrayValue) {
+		return value.items.map(v => normalizeBigInts(v)) as unknown as T;
+	}
+	if (value instanceof DuckDBStructValue) {
+		return normalizeBigInts(value.entries) as unknown as T;
+	}
+	if (value instanceof DuckDBMapValue) {
+		return Object.fromEntries(
+			value.entries.map(e => [String(e.key), normalizeBigInts(e.value)]),
+		) as unknown as T;
+	}
+	if (value instanceof DuckDBUnionValue) {
+		return normalizeBigInts(value.value) as unknown as T;
+	}
+	if (value instanceof DuckDBDecimalValue) {
+		const text = value.toString();
+		const n = Number(text);
+		return (text.replace(/[^0-9]/g, '').replace(/^0+/, '').length <= 15 ? n : text) as unknown as T;
+	}
+	const proto = Object.getPrototypeOf(value) as unknown;
+	if (proto !== Object.prototype && proto !== null) {
+		return String(value) as unknown as T;
+	}
 	const out: Record<string, unknown> = {};
 	for (const [k, v] of Object.entries(value as Record<string, unknown>)) {
 		out[k] = normalizeBigInts(v);
-- 
2.43.0


From 920faa7f724835455ee96d26785c917a7beed763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:53 +0000
Subject: [PATCH 103/145] fix: the trend of a series far from zero neither
 overflows nor cancels

---
 src/daemon/db/drivers/rdbms-common.ts | 67 +++++++++++++++++++++++----
 1 file changed, 57 insertions(+), 10 deletions(-)

diff --git a/src/daemon/db/drivers/rdbms-common.ts b/src/daemon/db/drivers/rdbms-common.ts
index ad8d609..dd4638f 100644
--- a/src/daemon/db/drivers/rdbms-common.ts
+++ b/src/daemon/db/drivers/rdbms-common.ts
@@ -1760,6 +1760,21 @@ export async function executeOutliers(
  * In both paths X is the timestamp column converted to epoch-seconds
  * via `dialect.epochExpr`.
  */
+/**
+ * Point the moments of an expression-path regression are taken around.
+ * Epoch-seconds squared overflow a 64-bit SUM after four rows, and the
+ * raw moments of a series far from zero cancel catastrophically; the
+ * same moments relative to the smallest observation do neither.
+ */
+export interface TrendOrigin {
+	readonly x: number;
+	readonly y: number;
+}
+
+function fromOrigin(expr: string, origin: number | undefined, dialect: Dialect): string {
+	return origin === undefined ? expr : `(1e0 * (${expr} - (${literal(origin, dialect)})))`;
+}
+
 export interface CompiledTemporalTrend {
 	readonly text: string;
 	readonly values: readonly unknown[];
@@ -1773,7 +1788,7 @@ export function compileTemporalTrend(
 	request: TemporalTrendRequest,
 	knownColumns: readonly string[],
 	dialect: Dialect,
-	opts?: { asTableExpr?: string; paramStartIndex?: number },
+	opts?: { asTableExpr?: string; paramStartIndex?: number; origin?: TrendOrigin },
 ): CompiledTemporalTrend {
 	const tsCol = quoteAndValidateColumn(request.timestampColumn, knownColumns, dialect);
 	const yCol  = quoteAndValidateColumn(request.valueColumn,    knownColumns, dialect);
@@ -1785,7 +1800,10 @@ export function compileTemporalTrend(
 
 	const text = dialect.supportsNativeRegr
 		? buildNativeRegrSql(yCol, xExpr, tableExpr, whereClause)
-		: buildExpressionRegrSql(yCol, xExpr, tableExpr, whereClause);
+		: buildExpressionRegrSql(yCol, xExpr, tableExpr, whereClause, {
+			x: fromOrigin(xExpr, opts?.origin?.x, dialect),
+			y: fromOrigin(yCol,  opts?.origin?.y, dialect),
+		});
 
 	if (looksLikeMutation(text)) {
 		throw new Error(`data-driver: refused suspicious SQL: ${text}`);
@@ -1813,7 +1831,13 @@ function buildNativeRegrSql(yCol: string, xExpr: string, quotedTarget: string, w
 	].join(' ');
 }
 
-function buildExpressionRegrSql(yCol: string, xExpr: string, quotedTarget: string, whereClause: string): string {
+function buildExpressionRegrSql(
+	yCol: string,
+	xExpr: string,
+	quotedTarget: string,
+	whereClause: string,
+	moment: { readonly x: string; readonly y: string } = { x: xExpr, y: yCol },
+): string {
 	// `x*y` (and the other products) are NULL when either side is NULL,
 	// so SUM ignores them naturally -- but we wrap the linear sums in
 	// a CASE so SUM(x), SUM(y), SUM(x*x), SUM(y*y) are also restricted
@@ -1823,11 +1847,11 @@ function buildExpressionRegrSql(yCol: string, xExpr: string, quotedTarget: strin
 	return [
 		'SELECT',
 		`  SUM(CASE WHEN ${pair} THEN 1 ELSE 0 END)                  AS n,`,
-		`  SUM(CASE WHEN ${pair} THEN ${xExpr}                  END) AS sx,`,
-		`  SUM(CASE WHEN ${pair} THEN ${yCol}                   END) AS sy,`,
-		`  SUM(CASE WHEN ${pair} THEN ${xExpr} * ${xExpr}       END) AS sxx,`,
-		`  SUM(CASE WHEN ${pair} THEN ${yCol} * ${yCol}         END) AS syy,`,
-		`  SUM(CASE WHEN ${pair} THEN ${xExpr} * ${yCol}        END) AS sxy,`,
+		`  SUM(CASE WHEN ${pair} THEN ${moment.x}                  END) AS sx,`,
+		`  SUM(CASE WHEN ${pair} THEN ${moment.y}                   END) AS sy,`,
+		`  SUM(CASE WHEN ${pair} THEN ${moment.x} * ${moment.x}       END) AS sxx,`,
+		`  SUM(CASE WHEN ${pair} THEN ${moment.y} * ${moment.y}         END) AS syy,`,
+		`  SUM(CASE WHEN ${pair} THEN ${moment.x} * ${moment.y}        END) AS sxy,`,
 		`  MIN(CASE WHEN ${pair} THEN ${xExpr}                  END) AS min_x,`,
 		`  MAX(CASE WHEN ${pair} THEN ${xExpr}                  END) AS max_x`,
 		`FROM ${quotedTarget}${whereClause}`,
@@ -1846,6 +1870,7 @@ export function readTemporalTrendRow(
 	timestampColumn: string,
 	valueColumn: string,
 	native: boolean,
+	origin: TrendOrigin = { x: 0, y: 0 },
 ): TemporalTrendResult {
 	if (row === undefined) {
 		return {
@@ -1901,7 +1926,7 @@ export function readTemporalTrendRow(
 	let r2: number | null;
 	if (Sxx > 0) {
 		slope     = Sxy / Sxx;
-		intercept = (sy - slope * sx) / n;
+		intercept = (sy - slope * sx) / n + origin.y - slope * origin.x;
 		r2        = Syy > 0 ? (Sxy * Sxy) / (Sxx * Syy) : null;
 	} else {
 		// Zero variance in X: regression slope is undefined.
@@ -1927,12 +1952,13 @@ export interface TemporalTrendOrchestratorDeps extends OrchestratorDeps {
 export async function executeTemporalTrend(
 	deps: TemporalTrendOrchestratorDeps,
 ): Promise<TemporalTrendResult> {
+	const origin = deps.dialect.supportsNativeRegr ? undefined : await trendOrigin(deps);
 	const compiled = compileTemporalTrend(
 		deps.target,
 		deps.request,
 		deps.knownColumns,
 		deps.dialect,
-		buildOrchestratorOptions(deps),
+		{ ...buildOrchestratorOptions(deps), ...(origin !== undefined ? { origin } : {}) },
 	);
 	const rows = await deps.runRows(compiled.text, compiled.values);
 	return readTemporalTrendRow(
@@ -1941,9 +1967,30 @@ export async function executeTemporalTrend(
 		deps.request.timestampColumn,
 		deps.request.valueColumn,
 		compiled.native,
+		origin,
 	);
 }
 
+/** Smallest timestamp and value among the complete pairs; undefined when there are none. */
+async function trendOrigin(deps: TemporalTrendOrchestratorDeps): Promise<TrendOrigin | undefined> {
+	const { target, request, knownColumns, dialect } = deps;
+	const opts = buildOrchestratorOptions(deps);
+	const xExpr = dialect.epochExpr(quoteAndValidateColumn(request.timestampColumn, knownColumns, dialect));
+	const yCol = quoteAndValidateColumn(request.valueColumn, knownColumns, dialect);
+	const where = compileWhere(request.where ?? [], knownColumns, dialect, opts.paramStartIndex ?? 1);
+	const pair = `${yCol} IS NOT NULL AND ${xExpr} IS NOT NULL`;
+	const guarded = where.text === '' ? `WHERE ${pair}` : `${where.text} AND ${pair}`;
+	const text = `SELECT MIN(${xExpr}) AS ox, MIN(${yCol}) AS oy` +
+		` FROM ${opts.asTableExpr ?? quoteTarget(target, dialect)} ${guarded}`;
+	if (looksLikeMutation(text)) {
+		throw new Error(`data-driver: refused suspicious SQL: ${text}`);
+	}
+	const row = (await deps.runRows(text, where.values))[0];
+	const x = asNumericValue(row?.['ox'] as number | string | null | undefined);
+	const y = asNumericValue(row?.['oy'] as number | string | null | undefined);
+	return x === null || y === null ? undefined : { x, y };
+}
+
 // ---------------------------------------------------------------------------
 // Dickey-Fuller stationarity test (Phase 5g.3 substrate)
 // ---------------------------------------------------------------------------
-- 
2.43.0


From 4ffddf45ce3f6da6b39e7da25ed1c465cffc3cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:45 +0000
Subject: [PATCH 104/145] fix: the Dickey-Fuller test of a series far from zero
 neither overflows nor cancels

---
 src/daemon/db/drivers/rdbms-common.ts | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/daemon/db/drivers/rdbms-common.ts b/src/daemon/db/drivers/rdbms-common.ts
index dd4638f..107c9bd 100644
--- a/src/daemon/db/drivers/rdbms-common.ts
+++ b/src/daemon/db/drivers/rdbms-common.ts
@@ -2022,8 +2022,12 @@ export function compileDickeyFuller(
 	const pair = `y_lag1 IS NOT NULL AND y IS NOT NULL`;
 	const text = [
 		`WITH lagged AS (`,
-		`  SELECT ${yCol} AS y, LAG(${yCol}) OVER (ORDER BY ${tsCol}) AS y_lag1`,
-		`  FROM ${tableExpr}${whereClause}`,
+		`  SELECT y, LAG(y) OVER (ORDER BY t) AS y_lag1`,
+		// Relative to the smallest value: the test does not depend on the
+		// level of the series, its raw moments overflow and cancel far
+		// from zero.
+		`  FROM (SELECT 1e0 * (${yCol} - MIN(${yCol}) OVER ()) AS y, ${tsCol} AS t`,
+		`        FROM ${tableExpr}${whereClause}) series`,
 		`)`,
 		'SELECT',
 		`  SUM(CASE WHEN ${pair} THEN 1 ELSE 0 END)              AS n,`,
-- 
2.43.0


From 78ded88f6622deb706ae641400ea9de7e5e214d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:04 +0000
Subject: [PATCH 105/145] fix: correlations of columns far from zero are
 computed without cancellation

---
 src/daemon/db/drivers/rdbms-common.ts | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/daemon/db/drivers/rdbms-common.ts b/src/daemon/db/drivers/rdbms-common.ts
index 107c9bd..5cd4a82 100644
--- a/src/daemon/db/drivers/rdbms-common.ts
+++ b/src/daemon/db/drivers/rdbms-common.ts
@@ -1050,6 +1050,13 @@ export function compileCorrelationMatrix(
 		const rankExprs = cols.map((c, i) => `RANK() OVER (ORDER BY ${c}) AS r${i}`);
 		baseFrom = `(SELECT ${cols.join(', ')}, ${rankExprs.join(', ')} FROM ${fromClause} ${guardedWhere}) AS rs`;
 		rankedCols = cols.map((_, i) => `r${i}`);
+	} else if (!dialectHasCorr(dialect)) {
+		// The portable formula cancels for columns far from zero; a
+		// correlation does not change when each column is taken relative
+		// to its smallest value.
+		const shifted = cols.map((c, i) => `${c} - MIN(${c}) OVER () AS c${i}`);
+		baseFrom = `(SELECT ${shifted.join(', ')} FROM ${fromClause} ${guardedWhere}) AS cs`;
+		rankedCols = cols.map((_, i) => `c${i}`);
 	} else {
 		baseFrom = `${fromClause} ${guardedWhere}`;
 		rankedCols = cols.slice();
-- 
2.43.0


From 6de7f5db3e2620ee470ff5bb5c94da22ea57b8a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:21 +0000
Subject: [PATCH 106/145] fix: the sample of a violated dependency stays within
 the request's filter

---
 src/daemon/db/drivers/rdbms-common.ts | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/daemon/db/drivers/rdbms-common.ts b/src/daemon/db/drivers/rdbms-common.ts
index 5cd4a82..79ea5f6 100644
--- a/src/daemon/db/drivers/rdbms-common.ts
+++ b/src/daemon/db/drivers/rdbms-common.ts
@@ -1377,8 +1377,8 @@ export function compileFdViolations(
 
 /**
  * Build the per-violation to-sample SQL: up to FD_TO_SAMPLE_LIMIT
- * distinct to-values for one specific from-value. Caller binds the
- * from-value at the first parameter slot.
+ * distinct to-values for one specific from-value, within the request's
+ * filter. Caller binds the from-value after the filter's values.
  */
 export function compileFdToSample(
 	target: string,
@@ -1386,20 +1386,22 @@ export function compileFdToSample(
 	knownColumns: readonly string[],
 	dialect: Dialect,
 	{ paramStartIndex = 1 }: { paramStartIndex?: number } = {},
-): { text: string } {
+): { text: string; values: readonly unknown[] } {
 	const fromSql = dialect.quoteIdent(request.fromColumn);
 	const toSql = dialect.quoteIdent(request.toColumn);
 	const targetSql = quoteTarget(target, dialect);
-	void knownColumns;
+	const where = compileWhere(request.where ?? [], knownColumns, dialect, paramStartIndex);
+	const fromValue = `${fromSql} = ${dialect.placeholder(paramStartIndex + where.values.length)}`;
+	const innerWhere = where.text === '' ? `WHERE ${fromValue}` : `${where.text} AND ${fromValue}`;
 	const topClause = dialect === MSSQL_DIALECT ? ` TOP ${FD_TO_SAMPLE_LIMIT}` : '';
 	const tailLimit = dialect === MSSQL_DIALECT ? '' : ' ' + dialect.limitClause(FD_TO_SAMPLE_LIMIT);
 	const text =
 		`SELECT${topClause} DISTINCT ${toSql} AS to_v FROM ${targetSql}` +
-		` WHERE ${fromSql} = ${dialect.placeholder(paramStartIndex)}${tailLimit}`;
+		` ${innerWhere}${tailLimit}`;
 	if (looksLikeMutation(text)) {
 		throw new Error('data-driver: refused suspicious SQL in compileFdToSample');
 	}
-	return { text };
+	return { text, values: where.values };
 }
 
 export interface FdOrchestratorDeps {
@@ -1436,7 +1438,7 @@ export async function executeFunctionalDependency(
 		}
 		const sampleSql = compileFdToSample(deps.target, request, deps.knownColumns, deps.dialect);
 		for (const v of violations) {
-			const toRows = await deps.runRows(sampleSql.text, [v.fromValue]);
+			const toRows = await deps.runRows(sampleSql.text, [...sampleSql.values, v.fromValue]);
 			const toSample = toRows.map(r => r['to_v'] ?? r['TO_V'] ?? null);
 			topViolations.push({
 				fromValue: v.fromValue,
-- 
2.43.0


From a43e09e5bd871a57461b6aa2c7469a863ed663c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:37 +0000
Subject: [PATCH 107/145] fix: computed bounds reach the query with full
 precision

---
 src/daemon/db/drivers/rdbms-common.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/daemon/db/drivers/rdbms-common.ts b/src/daemon/db/drivers/rdbms-common.ts
index 79ea5f6..57cad08 100644
--- a/src/daemon/db/drivers/rdbms-common.ts
+++ b/src/daemon/db/drivers/rdbms-common.ts
@@ -982,7 +982,8 @@ function numericFromRaw(raw: unknown): number | null {
 function literal(n: number, _dialect: Dialect): string {
 	if (!Number.isFinite(n)) return 'NULL';
 	// Use enough precision to round-trip a JS double through SQL parsing.
-	return Number(n).toPrecision(15);
+	const text = n.toPrecision(17);
+	return /[.e]/.test(text) ? text : `${text}.0`;
 }
 
 // ---------------------------------------------------------------------------
-- 
2.43.0


From 336e5ae7704c224db63d0c4d8008d516473221e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:54 +0000
Subject: [PATCH 108/145] fix: sqlite tables and indexes are inspected by their
 quoted names

---
 src/daemon/db/drivers/sqlite.ts | 37 ++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 17 deletions(-)

diff --git a/src/daemon/db/drivers/sqlite.ts b/src/daemon/db/drivers/sqlite.ts
index 8d5a139..e449d6a 100644
--- a/src/daemon/db/drivers/sqlite.ts
+++ b/src/daemon/db/drivers/sqlite.ts
@@ -109,15 +109,12 @@ class SqliteDriver implements RdbmsDriver {
 			return result;
 		}
 
-		quoteTarget(target, SQLITE_DIALECT);
-		// `PRAGMA table_info(X)` requires an unquoted identifier; we've
-		// already verified the shape above so concatenation is safe.
 		// eslint-disable-next-line @typescript-eslint/no-explicit-any
-		const info = this.db.prepare(`PRAGMA table_info(${target})`).all() as any[];
+		const info = this.db.prepare(pragmaOf('table_info', target)).all() as any[];
 		if (info.length === 0) {
 			throw new Error(`data-driver: table '${target}' not found`);
 		}
-		const fks = this.db.prepare(`PRAGMA foreign_key_list(${target})`)
+		const fks = this.db.prepare(pragmaOf('foreign_key_list', target))
 			.all() as { from: string; table: string; to: string }[];
 		const fkMap = new Map<string, { table: string; column: string }>();
 		for (const fk of fks) { fkMap.set(fk.from, { table: fk.table, column: fk.to }); }
@@ -251,16 +248,14 @@ class SqliteDriver implements RdbmsDriver {
 	}
 
 	async listIndexes(target: string): Promise<IndexListing> {
-		quoteTarget(target, SQLITE_DIALECT);
 		// `PRAGMA index_list(<table>)` returns: seq, name, unique, origin, partial
 		// where origin = 'pk' for the implicit PK index, 'u' for UNIQUE,
-		// 'c' for explicit CREATE INDEX. Identifier already validated by
-		// quoteTarget above; concatenation safe.
+		// 'c' for explicit CREATE INDEX.
 		// eslint-disable-next-line @typescript-eslint/no-explicit-any
-		const idxRows = this.db.prepare(`PRAGMA index_list(${target})`).all() as any[];
+		const idxRows = this.db.prepare(pragmaOf('index_list', target)).all() as any[];
 		const indexes: { name: string; columns: string[]; unique: boolean; primaryKey: boolean }[] = [];
 		for (const r of idxRows) {
-			const cols = this.db.prepare(`PRAGMA index_info(${quoteIdentForPragma(String(r.name))})`)
+			const cols = this.db.prepare(pragmaText('index_info', schemaOf(target), String(r.name)))
 				.all() as { name: string }[];
 			indexes.push({
 				name: String(r.name),
@@ -347,13 +342,21 @@ class SqliteDriver implements RdbmsDriver {
 
 // ---------------------------------------------------------------------------
 
-// PRAGMA index_info needs a bare identifier; quote it lightweight here
-// (sqlite accepts double-quoted identifiers in PRAGMA arguments).
-function quoteIdentForPragma(name: string): string {
-	if (!/^[A-Za-z_][A-Za-z0-9_]*$/.test(name)) {
-		throw new Error(`data-driver: invalid index identifier '${name}'`);
-	}
-	return `"${name}"`;
+// A PRAGMA names the schema before the pragma, not inside its argument;
+// both accept double-quoted identifiers (`PRAGMA "main".table_info("order")`).
+function pragmaText(pragma: string, schema: string | undefined, name: string): string {
+	const prefix = schema === undefined ? '' : `${SQLITE_DIALECT.quoteIdent(schema)}.`;
+	return `PRAGMA ${prefix}${pragma}(${SQLITE_DIALECT.quoteIdent(name)})`;
+}
+
+function schemaOf(target: string): string | undefined {
+	const dot = target.lastIndexOf('.');
+	return dot < 0 ? undefined : target.slice(0, dot);
+}
+
+function pragmaOf(pragma: string, target: string): string {
+	quoteTarget(target, SQLITE_DIALECT); // validates the identifier's shape
+	return pragmaText(pragma, schemaOf(target), target.slice(target.lastIndexOf('.') + 1));
 }
 
 function clampListLimit(n: number | undefined): number {
-- 
2.43.0


From b1bd372916d6c9db36bda3545a4e4922ec918d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:32 +0000
Subject: [PATCH 109/145] fix: sqlite integers beyond 2^53 are returned exactly

---
 src/daemon/db/drivers/sqlite.ts | 50 ++++++++++++++++++---------------
 1 file changed, 28 insertions(+), 22 deletions(-)

diff --git a/src/daemon/db/drivers/sqlite.ts b/src/daemon/db/drivers/sqlite.ts
index e449d6a..3896832 100644
--- a/src/daemon/db/drivers/sqlite.ts
+++ b/src/daemon/db/drivers/sqlite.ts
@@ -99,6 +99,22 @@ class SqliteDriver implements RdbmsDriver {
 		});
 	}
 
+	/**
+	 * Run a data query. Integers come back exact: those a JS number cannot
+	 * hold as their decimal text, the way the DuckDB driver ships them.
+	 */
+	private rows(sql: string, values: readonly unknown[] = []): Record<string, unknown>[] {
+		const rows = this.db.prepare(sql).safeIntegers(true).all(...values) as Record<string, unknown>[];
+		for (const row of rows) {
+			for (const [k, v] of Object.entries(row)) {
+				if (typeof v !== 'bigint') continue;
+				const n = Number(v);
+				row[k] = Number.isSafeInteger(n) ? n : v.toString();
+			}
+		}
+		return rows;
+	}
+
 	async describe(target: string): Promise<SchemaDescription> {
 		const cached = this.schemaCache.get(target);
 		if (cached !== undefined) { return cached; }
@@ -140,8 +156,7 @@ class SqliteDriver implements RdbmsDriver {
 		const cols = schema.columns.map(c => c.name);
 		const { text, values } = buildSampleSql(target, opts, cols, SQLITE_DIALECT);
 		log.debug({ id: this.id, text }, 'sample query');
-		const stmt = this.db.prepare(text);
-		const rows = stmt.all(...values as unknown[]) as Record<string, unknown>[];
+		const rows = this.rows(text, values);
 		const limit = Math.min(opts.limit, 50);
 		return {
 			target,
@@ -173,8 +188,7 @@ class SqliteDriver implements RdbmsDriver {
 		// the engine surfaces those as "no such function: ..." errors
 		// at run-time. The tool layer renders that as `success: false`
 		// without the daemon needing per-driver checks here.
-		const row = this.db.prepare(compiled.text)
-			.get(...compiled.values as unknown[]) as Record<string, unknown> | undefined;
+		const row = this.rows(compiled.text, compiled.values)[0];
 		return { target, values: readAggregateRow(row, compiled.keys) };
 	}
 
@@ -183,10 +197,8 @@ class SqliteDriver implements RdbmsDriver {
 		const cols = schema.columns.map(c => c.name);
 		const compiled = compileDistinct(target, request, cols, SQLITE_DIALECT);
 		log.debug({ id: this.id }, 'distinct query');
-		const countRow = this.db.prepare(compiled.distinctCountSql)
-			.get() as Record<string, unknown> | undefined;
-		const valueRows = this.db.prepare(compiled.topValuesSql)
-			.all() as Record<string, unknown>[];
+		const countRow = this.rows(compiled.distinctCountSql)[0];
+		const valueRows = this.rows(compiled.topValuesSql);
 		return {
 			target,
 			column: request.column,
@@ -203,8 +215,7 @@ class SqliteDriver implements RdbmsDriver {
 			knownColumns: cols,
 			dialect: SQLITE_DIALECT,
 			aggregate: (req) => this.aggregate(target, req),
-			runRows: async (sql, values) =>
-				this.db.prepare(sql).all(...values as unknown[]) as Record<string, unknown>[],
+			runRows: async (sql, values) => this.rows(sql, values),
 		});
 	}
 
@@ -216,8 +227,7 @@ class SqliteDriver implements RdbmsDriver {
 			knownColumns: cols,
 			dialect: SQLITE_DIALECT,
 			aggregate: (req) => this.aggregate(target, req),
-			runRows: async (sql, values) =>
-				this.db.prepare(sql).all(...values as unknown[]) as Record<string, unknown>[],
+			runRows: async (sql, values) => this.rows(sql, values),
 		});
 	}
 
@@ -271,8 +281,7 @@ class SqliteDriver implements RdbmsDriver {
 		return executeAntiJoin(request, {
 			dialect: SQLITE_DIALECT,
 			describe: (t) => this.describe(t).then(s => ({ columns: s.columns })),
-			runRows: async (sql, values) =>
-				this.db.prepare(sql).all(...values as unknown[]) as Record<string, unknown>[],
+			runRows: async (sql, values) => this.rows(sql, values),
 		});
 	}
 
@@ -283,8 +292,7 @@ class SqliteDriver implements RdbmsDriver {
 			target,
 			knownColumns: cols,
 			dialect: SQLITE_DIALECT,
-			runRows: async (sql, values) =>
-				this.db.prepare(sql).all(...values as unknown[]) as Record<string, unknown>[],
+			runRows: async (sql, values) => this.rows(sql, values),
 		});
 	}
 
@@ -296,8 +304,7 @@ class SqliteDriver implements RdbmsDriver {
 			knownColumns: cols,
 			dialect: SQLITE_DIALECT,
 			aggregate: (req) => this.aggregate(target, req),
-			runRows: async (sql, values) =>
-				this.db.prepare(sql).all(...values as unknown[]) as Record<string, unknown>[],
+			runRows: async (sql, values) => this.rows(sql, values),
 		});
 	}
 
@@ -310,8 +317,7 @@ class SqliteDriver implements RdbmsDriver {
 			dialect: SQLITE_DIALECT,
 			request,
 			aggregate: (req) => this.aggregate(target, req),
-			runRows: async (sql, values) =>
-				this.db.prepare(sql).all(...values as unknown[]) as Record<string, unknown>[],
+			runRows: async (sql, values) => this.rows(sql, values),
 		});
 	}
 
@@ -321,7 +327,7 @@ class SqliteDriver implements RdbmsDriver {
 		return executeDickeyFuller({
 			target, knownColumns: cols, dialect: SQLITE_DIALECT, request,
 			aggregate: (req) => this.aggregate(target, req),
-			runRows: async (sql, values) => this.db.prepare(sql).all(...values as unknown[]) as Record<string, unknown>[],
+			runRows: async (sql, values) => this.rows(sql, values),
 		});
 	}
 
@@ -331,7 +337,7 @@ class SqliteDriver implements RdbmsDriver {
 		return executeTemporalGapStats({
 			target, knownColumns: cols, dialect: SQLITE_DIALECT, request,
 			aggregate: (req) => this.aggregate(target, req),
-			runRows: async (sql, values) => this.db.prepare(sql).all(...values as unknown[]) as Record<string, unknown>[],
+			runRows: async (sql, values) => this.rows(sql, values),
 		});
 	}
 
-- 
2.43.0


From b0ccde0bbc200307d379c0989e23e5baf1543a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:32 +0000
Subject: [PATCH 110/145] fix: a file listing is truncated only when a matching
 file is left out

---
 src/daemon/db/list-files.ts | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/daemon/db/list-files.ts b/src/daemon/db/list-files.ts
index a13ee1c..35fd8dd 100644
--- a/src/daemon/db/list-files.ts
+++ b/src/daemon/db/list-files.ts
@@ -63,12 +63,12 @@ export async function listFilesForConnection(
 	let truncated = false;
 
 	const walk = async (dir: string): Promise<void> => {
-		if (out.length >= opts.limit) { truncated = true; return; }
+		if (truncated) return;
 		const entries = await readdir(dir, { withFileTypes: true });
 		// Sorted walk for stable output.
 		entries.sort((a, b) => a.name.localeCompare(b.name));
 		for (const e of entries) {
-			if (out.length >= opts.limit) { truncated = true; return; }
+			if (truncated) return;
 			if (e.name.startsWith('.')) continue;          // skip hidden
 			const full = join(dir, e.name);
 			if (e.isDirectory()) {
@@ -77,6 +77,8 @@ export async function listFilesForConnection(
 			}
 			if (!e.isFile()) continue;
 			if (matcher !== null && !matcher.test(e.name)) continue;
+			// One more match than fits is what makes the list incomplete.
+			if (out.length >= opts.limit) { truncated = true; return; }
 			const s = await stat(full);
 			out.push({
 				path: relative(connectionPath, full).split(sep).join('/'),
-- 
2.43.0


From 436d1b9b03634b52123bc7bbef799a1e4af0895b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:48 +0000
Subject: [PATCH 111/145] fix: file data sources read the file they name, also
 when its name has glob or quote characters

---
 src/daemon/db/drivers/duckdb-file.ts | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/daemon/db/drivers/duckdb-file.ts b/src/daemon/db/drivers/duckdb-file.ts
index ab71198..0a44c6f 100644
--- a/src/daemon/db/drivers/duckdb-file.ts
+++ b/src/daemon/db/drivers/duckdb-file.ts
@@ -287,10 +287,17 @@ function resolveReaderPath(
 	isDirectory: boolean,
 	recursive: boolean,
 ): string {
-	if (!isDirectory) return rootPath;
+	const literalRoot = literalPath(rootPath);
+	if (!isDirectory) return literalRoot;
 	const ext = globExtensionFor(kind);
 	const middle = recursive ? `**${sep}${ext}` : ext;
-	return join(rootPath, middle);
+	return join(literalRoot, middle);
+}
+
+/** DuckDB's readers take every path as a glob; make each character of
+ *  this one stand for itself (`data[1].csv`, `what?.csv`). */
+function literalPath(path: string): string {
+	return path.replace(/[[*?]/g, c => `[${c}]`);
 }
 
 // ---------------------------------------------------------------------------
@@ -350,7 +357,7 @@ function csvOptionsSql(opts: ResolvedCsvOptions): string {
 	if (opts.quote === false) {
 		parts.push(`quote=''`);
 	} else if (opts.quote !== undefined) {
-		parts.push(`quote='${opts.quote}'`);
+		parts.push(`quote='${opts.quote.replace(/'/g, "''")}'`);
 	}
 	return parts.length === 0 ? '' : `, ${parts.join(', ')}`;
 }
@@ -653,11 +660,11 @@ class DuckDBFileDriver implements FileDriver {
 				// Target -> specific sheet; else glob everything (DuckDB
 				// unions schemas, errors clearly if they diverge).
 				if (target !== undefined && target.length > 0) {
-					return join(dest, `${slugifySheetName(target)}.parquet`);
+					return join(literalPath(dest), `${slugifySheetName(target)}.parquet`);
 				}
-				return join(dest, '*.parquet');
+				return join(literalPath(dest), '*.parquet');
 			}
-			return dest;
+			return literalPath(dest);
 		}
 
 		const pattern = sourceWalkPattern(kind, opts);
@@ -672,7 +679,7 @@ class DuckDBFileDriver implements FileDriver {
 				return { rowCount: r.rowCount, durationMs: r.durationMs };
 			});
 		}
-		const cacheDir = cacheDirFor(this.id);
+		const cacheDir = literalPath(cacheDirFor(this.id));
 		// xlsx mirrors source tree but each `.xlsx` becomes a directory
 		// of per-sheet `.parquet`s -- always one extra depth than the
 		// source layout, so always use `**`.
-- 
2.43.0


From 5c376fc06255f541adb549fddd40897aa9cf5ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:04 +0000
Subject: [PATCH 112/145] fix: a data source in a folder whose name starts with
 two dots is inside the repository

---
 src/daemon/db-rpc.ts  | 4 ++--
 src/daemon/db/pool.ts | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/daemon/db-rpc.ts b/src/daemon/db-rpc.ts
index 07b423a..c150eb4 100644
--- a/src/daemon/db-rpc.ts
+++ b/src/daemon/db-rpc.ts
@@ -18,7 +18,7 @@
  * by upserting on `id`.
  */
 
-import { isAbsolute, relative, resolve } from 'node:path';
+import { isAbsolute, relative, resolve, sep } from 'node:path';
 import { access } from 'node:fs/promises';
 import { constants as fsConst } from 'node:fs';
 
@@ -412,7 +412,7 @@ async function materializeTransientConfig(
 		}
 		const abs = isAbsolute(input.path) ? input.path : resolve(repoRoot, input.path);
 		const rel = relative(repoRoot, abs);
-		if (rel.startsWith('..') || isAbsolute(rel)) {
+		if (rel === '..' || rel.startsWith(`..${sep}`) || isAbsolute(rel)) {
 			throw new Error(
 				`file connection '${input.id}' path '${input.path}' resolves outside the repo root`,
 			);
diff --git a/src/daemon/db/pool.ts b/src/daemon/db/pool.ts
index 47f4531..f0b3612 100644
--- a/src/daemon/db/pool.ts
+++ b/src/daemon/db/pool.ts
@@ -20,7 +20,7 @@
 
 import { access } from 'node:fs/promises';
 import { constants as fsConst } from 'node:fs';
-import { isAbsolute, relative, resolve } from 'node:path';
+import { isAbsolute, relative, resolve, sep } from 'node:path';
 
 import { getLogger } from '../../shared/logger.js';
 import type {
@@ -282,7 +282,7 @@ async function resolveAndCheckRepoPath(
 ): Promise<string> {
 	const abs = isAbsolute(givenPath) ? givenPath : resolve(repoRoot, givenPath);
 	const rel = relative(repoRoot, abs);
-	if (rel.startsWith('..') || isAbsolute(rel)) {
+	if (rel === '..' || rel.startsWith(`..${sep}`) || isAbsolute(rel)) {
 		throw new Error(
 			`data-driver: connection '${connId}' ${field} '${givenPath}' ` +
 			`resolves outside the repo root`,
-- 
2.43.0


From c7433c74494d0fe828fc97296a8a9a0e6bb27c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:04 +0000
Subject: [PATCH 113/145] fix: a reload picks up a changed recursive or
 partitioning setting of a data source

---
 src/daemon/db/pool.ts | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/daemon/db/pool.ts b/src/daemon/db/pool.ts
index f0b3612..87decdc 100644
--- a/src/daemon/db/pool.ts
+++ b/src/daemon/db/pool.ts
@@ -304,6 +304,8 @@ function shallowEqual(a: ConnectionConfig, b: ConnectionConfig): boolean {
 		&& a.url === b.url
 		&& a.path === b.path
 		&& a.secretRef === b.secretRef
+		&& a.recursive === b.recursive
+		&& a.partitioning === b.partitioning
 		&& JSON.stringify(a.options ?? null) === JSON.stringify(b.options ?? null)
 		&& JSON.stringify(a.namespace ?? null) === JSON.stringify(b.namespace ?? null)
 		&& JSON.stringify(a.schemaSource ?? null) === JSON.stringify(b.schemaSource ?? null)
-- 
2.43.0


From d8c0e3cabf82fd95cbf9a378c3a82889a54feb4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:35 +0000
Subject: [PATCH 114/145] fix: a stored password with dollar signs is put into
 the connection URL as it is

---
 src/daemon/db/secrets.ts | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/daemon/db/secrets.ts b/src/daemon/db/secrets.ts
index e59bdcf..143abac 100644
--- a/src/daemon/db/secrets.ts
+++ b/src/daemon/db/secrets.ts
@@ -44,7 +44,8 @@ export function makeSecretRef(repoId: string, connId: string): string {
 export async function resolveSecrets(value: string): Promise<string> {
 	const tokens = Array.from(value.matchAll(SECRET_TOKEN));
 	if (tokens.length === 0) { return value; }
-	let out = value;
+	let out = '';
+	let end = 0;
 	for (const match of tokens) {
 		const ref = match[1];
 		if (ref === undefined) { continue; }
@@ -52,9 +53,10 @@ export async function resolveSecrets(value: string): Promise<string> {
 		if (secret === null) {
 			throw new Error(`data-driver: missing keychain secret for ref '${ref}'`);
 		}
-		out = out.replace(match[0], secret);
+		out += value.slice(end, match.index) + secret;
+		end = match.index + match[0].length;
 	}
-	return out;
+	return out + value.slice(end);
 }
 
 export function setSecret(ref: string, value: string): Promise<void> {
-- 
2.43.0


From fb7d71c884e67221afd1e8d6666ff4577c6c5fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:51 +0000
Subject: [PATCH 115/145] fix: extracting the password of a connection URL and
 putting it back gives the same URL

---
 src/daemon/db/secrets.ts | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/daemon/db/secrets.ts b/src/daemon/db/secrets.ts
index 143abac..fce9925 100644
--- a/src/daemon/db/secrets.ts
+++ b/src/daemon/db/secrets.ts
@@ -32,7 +32,8 @@ export function _setKeystoreForTests(impl: KeystoreLike): void {
 }
 
 export function makeSecretRef(repoId: string, connId: string): string {
-	return `db:${repoId}:${connId}`;
+	// `}` would end the `${secret:...}` token early.
+	return `db:${repoId}:${connId.replace(/[%}]/g, c => encodeURIComponent(c))}`;
 }
 
 /**
@@ -94,14 +95,13 @@ export async function extractUrlPassword(
 		return rawUrl;
 	}
 	if (u.password === '') { return rawUrl; }
-	const password = decodeURIComponent(u.password);
-	await setSecret(ref, password);
-	u.password = `\${secret:${ref}}`;
-	// URL constructor re-encodes the `${...}` token -- undo that so it
-	// round-trips cleanly through JSON + resolveSecrets. Two variants
-	// observed: `$` may or may not be percent-encoded depending on Node
-	// version, but `{`, `}`, and `:` always are inside userinfo.
-	return u.toString()
-		.replace(/(?:\$|%24)%7Bsecret%3A/, '${secret:')
-		.replace(encodeURIComponent(ref) + '%7D', ref + '}');
+	// Stored the way the URL spells it (percent-encoded), so that putting
+	// it back yields the same URL also for passwords with `@`, `/` or `%`.
+	await setSecret(ref, u.password);
+	// The URL re-encodes `${...}`, so it carries a plain marker instead,
+	// one the rest of the URL does not contain.
+	let marker = 'insrc-secret';
+	while (rawUrl.includes(marker)) { marker += 'x'; }
+	u.password = marker;
+	return u.toString().replace(marker, () => `\${secret:${ref}}`);
 }
-- 
2.43.0


From 0abb595394d5128f21431344b83df0e9f576d723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:29 +0000
Subject: [PATCH 116/145] fix: the list of data connections is replaced as a
 whole, never left half-written

---
 src/daemon/db/config.ts | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/daemon/db/config.ts b/src/daemon/db/config.ts
index e322afe..92eb671 100644
--- a/src/daemon/db/config.ts
+++ b/src/daemon/db/config.ts
@@ -19,7 +19,7 @@
  */
 
 import { createHash } from 'node:crypto';
-import { readFile, writeFile, mkdir } from 'node:fs/promises';
+import { readFile, writeFile, mkdir, rename, rm } from 'node:fs/promises';
 import { dirname, join } from 'node:path';
 
 import { getLogger } from '../../shared/logger.js';
@@ -33,6 +33,8 @@ import { familyOf, kindExists } from './registry.js';
 
 const log = getLogger('db-config');
 
+let saveSeq = 0;
+
 const CONFIG_FILENAME = 'db-connections.json';
 
 /**
@@ -152,7 +154,15 @@ export async function saveConnections(
 	const path = connectionsPath(repoPath);
 	await mkdir(dirname(path), { recursive: true });
 	const serialized = JSON.stringify(file, null, 2) + '\n';
-	await writeFile(path, serialized, 'utf8');
+	// Complete or not at all: a reader, or a crash, never meets half a file.
+	const tmp = `${path}.${process.pid}.${++saveSeq}.tmp`;
+	try {
+		await writeFile(tmp, serialized, 'utf8');
+		await rename(tmp, path);
+	} catch (err) {
+		await rm(tmp, { force: true });
+		throw err;
+	}
 	log.debug({ repoPath, path }, 'saved db-connections');
 	return path;
 }
-- 
2.43.0


From 2f79ccd32171ab473c21dfa4cf574bb27bb83399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:26:43 +0000
Subject: [PATCH 117/145] fix: saving or deleting a data connection never drops
 the other ones

---
 src/daemon/db-rpc.ts | 99 ++++++++++++++++++++++++++++----------------
 1 file changed, 63 insertions(+), 36 deletions(-)

diff --git a/src/daemon/db-rpc.ts b/src/daemon/db-rpc.ts
index c150eb4..185fc80 100644
--- a/src/daemon/db-rpc.ts
+++ b/src/daemon/db-rpc.ts
@@ -143,27 +143,53 @@ export async function saveConnectionRpc(params: {
 	const family: DriverFamily = cfg.family ?? familyOf(cfg.kind) ?? 'rdbms';
 	const ref = makeSecretRef(repoIdOf(repoRoot), cfg.id);
 
-	let urlForFile = cfg.url;
-	if (family !== 'file' && cfg.url !== undefined && !cfg.url.includes('${secret:')) {
-		urlForFile = await extractUrlPassword(cfg.url, ref);
-	}
-	const next: ConnectionConfig = buildPersistedConfig(cfg, family, urlForFile, ref);
-
-	const existing = await loadConnections(repoRoot)
-		.then(r => r.resolved)
-		.catch(() => [] as readonly ConnectionConfig[]);
-	const filtered = existing.filter(c => c.id !== cfg.id);
-	const wrotePath = await saveConnections(repoRoot, {
-		connections: [...filtered, next],
+	return changingConnections(repoRoot, async () => {
+		const existing = await existingConnections(repoRoot);
+		if (typeof existing === 'string') { return { error: existing }; }
+
+		let urlForFile = cfg.url;
+		if (family !== 'file' && cfg.url !== undefined && !cfg.url.includes('${secret:')) {
+			urlForFile = await extractUrlPassword(cfg.url, ref);
+		}
+		const next: ConnectionConfig = buildPersistedConfig(cfg, family, urlForFile, ref);
+
+		const filtered = existing.filter(c => c.id !== cfg.id);
+		const wrotePath = await saveConnections(repoRoot, {
+			connections: [...filtered, next],
+		});
+
+		try { await reloadAll(); }
+		catch (err) { log.warn({ err: (err as Error).message }, 'pool reload after save failed'); }
+
+		const result: SaveConnectionResult = next.url !== undefined
+			? { id: next.id, family, redactedUrl: next.url, wrotePath }
+			: { id: next.id, family, wrotePath };
+		return result;
 	});
+}
 
-	try { await reloadAll(); }
-	catch (err) { log.warn({ err: (err as Error).message }, 'pool reload after save failed'); }
+/**
+ * Adding and removing a connection read the list, change it and write it
+ * back; two at a time would lose one of the changes.
+ */
+const CHANGING = new Map<string, Promise<unknown>>();
+
+async function changingConnections<T>(repoRoot: string, change: () => Promise<T>): Promise<T> {
+	const earlier = CHANGING.get(repoRoot) ?? Promise.resolve();
+	const run = earlier.then(change, change);
+	CHANGING.set(repoRoot, run);
+	try { return await run; }
+	finally { if (CHANGING.get(repoRoot) === run) { CHANGING.delete(repoRoot); } }
+}
 
-	const result: SaveConnectionResult = next.url !== undefined
-		? { id: next.id, family, redactedUrl: next.url, wrotePath }
-		: { id: next.id, family, wrotePath };
-	return result;
+/** The stored list; the reason when there is one that cannot be read --
+ *  writing a new list over it would drop every connection in it. */
+async function existingConnections(repoRoot: string): Promise<readonly ConnectionConfig[] | string> {
+	try {
+		return (await loadConnections(repoRoot)).resolved;
+	} catch (err) {
+		return (err as Error).message;
+	}
 }
 
 // ---------------------------------------------------------------------------
@@ -186,27 +212,28 @@ export async function deleteConnectionRpc(params: {
 		return { error: 'repoRoot and id are required' };
 	}
 
-	const existing = await loadConnections(repoRoot)
-		.then(r => r.resolved)
-		.catch(() => [] as readonly ConnectionConfig[]);
-	if (existing.find(c => c.id === id) === undefined) {
-		return { id, removed: false };
-	}
-	const filtered = existing.filter(c => c.id !== id);
-	const wrotePath = await saveConnections(repoRoot, {
-		connections: filtered,
-	});
+	return changingConnections(repoRoot, async () => {
+		const existing = await existingConnections(repoRoot);
+		if (typeof existing === 'string') { return { error: existing }; }
+		if (existing.find(c => c.id === id) === undefined) {
+			return { id, removed: false };
+		}
+		const filtered = existing.filter(c => c.id !== id);
+		const wrotePath = await saveConnections(repoRoot, {
+			connections: filtered,
+		});
 
-	const ref = makeSecretRef(repoIdOf(repoRoot), id);
-	try { await deleteSecret(ref); }
-	catch (err) {
-		log.warn({ ref, err: (err as Error).message }, 'keychain entry delete failed');
-	}
+		const ref = makeSecretRef(repoIdOf(repoRoot), id);
+		try { await deleteSecret(ref); }
+		catch (err) {
+			log.warn({ ref, err: (err as Error).message }, 'keychain entry delete failed');
+		}
 
-	try { await reloadAll(); }
-	catch (err) { log.warn({ err: (err as Error).message }, 'pool reload after delete failed'); }
+		try { await reloadAll(); }
+		catch (err) { log.warn({ err: (err as Error).message }, 'pool reload after delete failed'); }
 
-	return { id, removed: true, removedPath: wrotePath };
+		return { id, removed: true, removedPath: wrotePath };
+	});
 }
 
 // ---------------------------------------------------------------------------
-- 
2.43.0


From 00265c3b7afbb7d95cc986dbdb4c9c00fc16c58a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:26:59 +0000
Subject: [PATCH 118/145] fix: saving a data connection keeps its recursive and
 partitioning settings

---
 src/daemon/db-rpc.ts | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/daemon/db-rpc.ts b/src/daemon/db-rpc.ts
index 185fc80..9599629 100644
--- a/src/daemon/db-rpc.ts
+++ b/src/daemon/db-rpc.ts
@@ -74,6 +74,8 @@ interface SaveConnectionInput {
 	readonly namespace?: { readonly allow: readonly string[] };
 	readonly options?: Readonly<Record<string, unknown>>;
 	readonly pii?: readonly string[];
+	readonly recursive?: boolean;
+	readonly partitioning?: 'hive' | 'none';
 }
 
 // ---------------------------------------------------------------------------
@@ -320,6 +322,8 @@ function mergePersisted(input: SaveConnectionInput, persisted: ConnectionConfig)
 	if (merged.namespace === undefined && persisted.namespace !== undefined) { merged.namespace = persisted.namespace; }
 	if (merged.options === undefined && persisted.options !== undefined) { merged.options = persisted.options; }
 	if (merged.pii === undefined && persisted.pii !== undefined) { merged.pii = persisted.pii; }
+	if (merged.recursive === undefined && persisted.recursive !== undefined) { merged.recursive = persisted.recursive; }
+	if (merged.partitioning === undefined && persisted.partitioning !== undefined) { merged.partitioning = persisted.partitioning; }
 	return merged as SaveConnectionInput;
 }
 
@@ -366,6 +370,10 @@ function parseSaveInput(raw: unknown): SaveConnectionInput | string {
 	if (Array.isArray(c['pii'])) {
 		out.pii = c['pii'].filter((x): x is string => typeof x === 'string');
 	}
+	if (typeof c['recursive'] === 'boolean') { out.recursive = c['recursive']; }
+	if (c['partitioning'] === 'hive' || c['partitioning'] === 'none') {
+		out.partitioning = c['partitioning'];
+	}
 	return out as SaveConnectionInput;
 }
 
@@ -405,6 +413,8 @@ function buildPersistedConfig(
 	if (input.namespace !== undefined)    { base.namespace    = input.namespace; }
 	if (input.options !== undefined)      { base.options      = input.options; }
 	if (input.pii !== undefined)          { base.pii          = input.pii; }
+	if (input.recursive !== undefined)    { base.recursive    = input.recursive; }
+	if (input.partitioning !== undefined) { base.partitioning = input.partitioning; }
 	if (url !== undefined && url.includes('${secret:')) {
 		base.secretRef = ref;
 	}
@@ -432,6 +442,8 @@ async function materializeTransientConfig(
 	if (input.namespace !== undefined)    { base.namespace    = input.namespace; }
 	if (input.options !== undefined)      { base.options      = input.options; }
 	if (input.pii !== undefined)          { base.pii          = input.pii; }
+	if (input.recursive !== undefined)    { base.recursive    = input.recursive; }
+	if (input.partitioning !== undefined) { base.partitioning = input.partitioning; }
 
 	if (family === 'file') {
 		if (input.path === undefined) {
-- 
2.43.0


From 4164532ab44ff4f21ff25c49175e4687a1cd7898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:27:10 +0000
Subject: [PATCH 119/145] fix: connections replaced or shut down while opening
 are closed, and none is handed out while closing

---
 src/daemon/db/pool.ts | 127 ++++++++++++++++++++++++++----------------
 1 file changed, 79 insertions(+), 48 deletions(-)

diff --git a/src/daemon/db/pool.ts b/src/daemon/db/pool.ts
index 87decdc..998608f 100644
--- a/src/daemon/db/pool.ts
+++ b/src/daemon/db/pool.ts
@@ -44,10 +44,25 @@ interface PoolEntry {
 	building: Promise<Driver> | null;
 	lastUsedAt: number;
 	idleTimer: ReturnType<typeof setTimeout> | null;
+	/** No longer in the pool: a build still in flight is closed when done. */
+	retired: boolean;
+}
+
+function newEntry(config: ConnectionConfig): PoolEntry {
+	return {
+		connectionId: config.id,
+		config,
+		driver: null,
+		building: null,
+		lastUsedAt: 0,
+		idleTimer: null,
+		retired: false,
+	};
 }
 
 export class DriverPool {
 	private readonly entries = new Map<string, PoolEntry>();
+	private lastReload: Promise<unknown> = Promise.resolve();
 
 	constructor(private readonly repoPath: string) { }
 
@@ -56,8 +71,16 @@ export class DriverPool {
 	 * Replaces the in-memory set of entries; closes drivers whose
 	 * config disappeared or changed.
 	 */
-	async reload(): Promise<{ warnings: readonly string[] }> {
+	reload(): Promise<{ warnings: readonly string[] }> {
+		// One after the other, so that the list read last is the one in force.
+		const run = this.lastReload.then(() => this.reloadNow(), () => this.reloadNow());
+		this.lastReload = run;
+		return run;
+	}
+
+	private async reloadNow(): Promise<{ warnings: readonly string[] }> {
 		const { resolved, warnings } = await loadConnections(this.repoPath);
+		const replaced: PoolEntry[] = [];
 
 		const nextIds = new Set(resolved.map(c => c.id));
 		for (const [id, entry] of this.entries) {
@@ -69,7 +92,7 @@ export class DriverPool {
 			// keeps the analyzer's run-time view of registered connections
 			// stable.
 			if (!nextIds.has(id) && entry.config.ephemeral !== true) {
-				await this.closeEntry(entry);
+				replaced.push(entry);
 				this.entries.delete(id);
 			}
 		}
@@ -77,28 +100,15 @@ export class DriverPool {
 		for (const config of resolved) {
 			const existing = this.entries.get(config.id);
 			if (existing === undefined) {
-				this.entries.set(config.id, {
-					connectionId: config.id,
-					config,
-					driver: null,
-					building: null,
-					lastUsedAt: 0,
-					idleTimer: null,
-				});
+				this.entries.set(config.id, newEntry(config));
 				continue;
 			}
 			if (!shallowEqual(existing.config, config)) {
-				await this.closeEntry(existing);
-				this.entries.set(config.id, {
-					connectionId: config.id,
-					config,
-					driver: null,
-					building: null,
-					lastUsedAt: 0,
-					idleTimer: null,
-				});
+				replaced.push(existing);
+				this.entries.set(config.id, newEntry(config));
 			}
 		}
+		for (const entry of replaced) { await this.retire(entry); }
 
 		log.debug(
 			{ repoPath: this.repoPath, count: this.entries.size },
@@ -128,23 +138,29 @@ export class DriverPool {
 			this.touch(entry);
 			return entry.driver;
 		}
-		if (entry.building !== null) {
-			return entry.building;
-		}
-		entry.building = this.build(entry).finally(() => {
+		entry.building ??= this.build(entry).finally(() => {
 			entry.building = null;
 		});
-		const driver = await entry.building;
-		entry.driver = driver;
-		this.touch(entry);
-		return driver;
+		try {
+			return await entry.building;
+		} catch (err) {
+			// Replaced while it was opening: the current one is asked for.
+			const current = this.entries.get(connectionId);
+			if (entry.retired && current !== undefined && current !== entry) {
+				return this.acquire(connectionId);
+			}
+			throw err;
+		}
 	}
 
 	async closeAll(): Promise<void> {
-		for (const entry of this.entries.values()) {
-			await this.closeEntry(entry);
-		}
+		const entries = Array.from(this.entries.values());
 		this.entries.clear();
+		for (const entry of entries) {
+			await this.retire(entry);
+			// Still opening: closed by its build, which shutdown waits for.
+			if (entry.building !== null) { await entry.building.catch(() => undefined); }
+		}
 	}
 
 	/**
@@ -159,17 +175,10 @@ export class DriverPool {
 	async registerEphemeral(config: ConnectionConfig): Promise<void> {
 		const stamped: ConnectionConfig = { ...config, ephemeral: true };
 		const existing = this.entries.get(stamped.id);
+		this.entries.set(stamped.id, newEntry(stamped));
 		if (existing !== undefined) {
-			await this.closeEntry(existing);
+			await this.retire(existing);
 		}
-		this.entries.set(stamped.id, {
-			connectionId: stamped.id,
-			config: stamped,
-			driver: null,
-			building: null,
-			lastUsedAt: 0,
-			idleTimer: null,
-		});
 		log.debug({ id: stamped.id, kind: stamped.kind, path: stamped.path }, 'pool: ephemeral connection registered');
 	}
 
@@ -187,7 +196,18 @@ export class DriverPool {
 			{ id: entry.config.id, kind: entry.config.kind },
 			'building driver',
 		);
-		return factory(resolvedConfig);
+		const driver = await factory(resolvedConfig);
+		if (entry.retired) {
+			// Removed, changed or shut down while it was opening: nobody
+			// would ever close it.
+			await this.closeDriver(entry, driver);
+			throw new Error(
+				`data-driver: connection '${entry.config.id}' was changed or closed while it was opening`,
+			);
+		}
+		entry.driver = driver;
+		this.touch(entry);
+		return driver;
 	}
 
 	private touch(entry: PoolEntry): void {
@@ -204,20 +224,31 @@ export class DriverPool {
 		entry.idleTimer.unref();
 	}
 
+	private async retire(entry: PoolEntry): Promise<void> {
+		entry.retired = true;
+		await this.closeEntry(entry);
+	}
+
 	private async closeEntry(entry: PoolEntry): Promise<void> {
 		if (entry.idleTimer !== null) {
 			clearTimeout(entry.idleTimer);
 			entry.idleTimer = null;
 		}
-		if (entry.driver !== null) {
-			try { await entry.driver.close(); }
-			catch (err) {
-				log.warn(
-					{ err: (err as Error).message, id: entry.config.id },
-					'driver close failed',
-				);
-			}
+		const driver = entry.driver;
+		if (driver !== null) {
+			// Out of the pool first: nobody may be handed a closing driver.
 			entry.driver = null;
+			await this.closeDriver(entry, driver);
+		}
+	}
+
+	private async closeDriver(entry: PoolEntry, driver: Driver): Promise<void> {
+		try { await driver.close(); }
+		catch (err) {
+			log.warn(
+				{ err: (err as Error).message, id: entry.config.id },
+				'driver close failed',
+			);
 		}
 	}
 }
-- 
2.43.0


From 1275f50333268e826e19a5266cab5b12f8ff195c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:27:23 +0000
Subject: [PATCH 120/145] fix: shutting down data connections does not forget a
 pool created meanwhile

---
 src/daemon/db/pool-cache.ts | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/daemon/db/pool-cache.ts b/src/daemon/db/pool-cache.ts
index 8d95aee..2365399 100644
--- a/src/daemon/db/pool-cache.ts
+++ b/src/daemon/db/pool-cache.ts
@@ -49,13 +49,14 @@ export async function reloadAll(): Promise<void> {
 }
 
 export async function closeAll(): Promise<void> {
-	for (const pool of CACHE.values()) {
+	const pools = Array.from(CACHE.values());
+	CACHE.clear();
+	for (const pool of pools) {
 		try { await pool.closeAll(); }
 		catch (err) {
 			log.warn({ err: (err as Error).message }, 'pool close failed');
 		}
 	}
-	CACHE.clear();
 }
 
 /** Test-only. Drops the cache without closing -- callers that want
-- 
2.43.0


From 0f90e7406ebbff1b3eed9690a208a32fce97db96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:05 +0000
Subject: [PATCH 121/145] fix: a converted copy is never taken for current when
 its source changed meanwhile, nor read half-written

---
 src/daemon/db/converter-cache.ts | 78 ++++++++++++++++++++++++--------
 1 file changed, 58 insertions(+), 20 deletions(-)

diff --git a/src/daemon/db/converter-cache.ts b/src/daemon/db/converter-cache.ts
index 7dea75a..f584863 100644
--- a/src/daemon/db/converter-cache.ts
+++ b/src/daemon/db/converter-cache.ts
@@ -21,15 +21,15 @@
  * each successful write the manager checks total size and evicts
  * oldest-mtime entries (with their sidecars) until the cap is met.
  *
- * Concurrent-access guard: a per-source-path in-memory mutex
- * (`Map<sourcePath, Promise>`) ensures two parallel queries against
- * the same source converge on a single conversion -- the second
+ * Concurrent-access guard: a per-destination in-memory mutex
+ * (`Map<destPath, Promise>`) ensures two parallel queries against
+ * the same source of a connection converge on a single conversion -- the second
  * awaits the first instead of starting its own. Cross-process races
  * are out of scope (the daemon is the sole writer).
  */
 
 import { existsSync, statSync } from 'node:fs';
-import { mkdir, readFile, readdir, rm, stat, writeFile } from 'node:fs/promises';
+import { mkdir, readFile, readdir, rename, rm, stat, writeFile } from 'node:fs/promises';
 import { dirname, join, relative, sep } from 'node:path';
 
 import { getLogger } from '../../shared/logger.js';
@@ -49,8 +49,15 @@ interface SidecarMeta {
 	readonly converter: string;
 }
 
+/** Conversions in flight, by destination. */
 const INFLIGHT = new Map<string, Promise<void>>();
 
+/** When each destination was last asked for; eviction spares recent ones. */
+const LAST_USED = new Map<string, number>();
+const KEEP_USED_MS = 10 * 60 * 1000;
+
+let convertSeq = 0;
+
 // ---------------------------------------------------------------------------
 // Public API
 // ---------------------------------------------------------------------------
@@ -60,6 +67,11 @@ export function cacheRoot(): string {
 	return join(PATHS.insrc, 'cache', 'file-converted');
 }
 
+/** Where conversions are written before they are moved into the cache. */
+function stagingRoot(): string {
+	return join(PATHS.insrc, 'cache', 'file-converting');
+}
+
 /** Per-connection cache directory. */
 export function cacheDirFor(connectionId: string): string {
 	return join(cacheRoot(), connectionId, 'files');
@@ -83,19 +95,26 @@ export function destForSource(
 /**
  * Cache freshness check. The dest is fresh when:
  *   1. dest + sidecar both exist
- *   2. sidecar's recorded sourceMtime + sourceSize match current
+ *   2. sidecar's recorded source path, mtime + size match current
+ *   3. it was made by `converter` (name plus settings), when given
  *
  * mtime comparison is millisecond-granular; subsecond changes count
  * as an edit. Size comparison catches truncations / replacements
  * that share an mtime.
  */
-export async function isCached(sourcePath: string, destPath: string): Promise<boolean> {
+export async function isCached(
+	sourcePath: string,
+	destPath: string,
+	converter?: string,
+): Promise<boolean> {
 	if (!existsSync(destPath)) return false;
 	try {
 		const sidecar = await readSidecar(destPath);
 		if (sidecar === null) return false;
 		const cur = await stat(sourcePath);
-		return sidecar.sourceMtime === cur.mtimeMs
+		return sidecar.sourcePath === sourcePath
+			&& (converter === undefined || sidecar.converter === converter)
+			&& sidecar.sourceMtime === cur.mtimeMs
 			&& sidecar.sourceSize === cur.size;
 	} catch {
 		return false;
@@ -103,11 +122,16 @@ export async function isCached(sourcePath: string, destPath: string): Promise<bo
 }
 
 /**
- * Run `convert(sourcePath, destPath)` if the cache says it's stale.
- * Concurrent callers for the same `sourcePath` share a single
+ * Run `convert(sourcePath, <staging path>)` if the cache says it's
+ * stale and move the result to `destPath`: a query reading `destPath`
+ * meanwhile sees the old copy or the new one, never half of one.
+ * Concurrent callers for the same `destPath` share a single
  * conversion -- the second awaits the first's promise instead of
- * starting its own. Writes the sidecar on success + enforces the
- * cache cap.
+ * starting its own, then checks that it is still current. Writes the
+ * sidecar on success + enforces the cache cap.
+ *
+ * `converterName` identifies the converter and the settings it runs
+ * with; a copy made by another one is stale.
  */
 export async function ensureCached(
 	connectionId: string,
@@ -116,19 +140,32 @@ export async function ensureCached(
 	converterName: string,
 	convert: (source: string, dest: string) => Promise<{ rowCount: number; durationMs: number }>,
 ): Promise<void> {
-	if (await isCached(sourcePath, destPath)) return;
-
-	const inflight = INFLIGHT.get(sourcePath);
-	if (inflight !== undefined) {
+	LAST_USED.set(destPath, Date.now());
+	for (;;) {
+		if (await isCached(sourcePath, destPath, converterName)) return;
+		const inflight = INFLIGHT.get(destPath);
+		if (inflight === undefined) break;
 		await inflight;
-		return;
 	}
 
 	const work = (async (): Promise<void> => {
-		await mkdir(dirname(destPath), { recursive: true });
 		const tStart = Date.now();
-		const result = await convert(sourcePath, destPath);
+		// Taken before reading: an edit during the conversion makes the
+		// copy stale, not current.
 		const sourceStat = await stat(sourcePath);
+		const staged = join(stagingRoot(), `${process.pid}-${++convertSeq}`);
+		await mkdir(dirname(staged), { recursive: true });
+		let result: { rowCount: number; durationMs: number };
+		try {
+			result = await convert(sourcePath, staged);
+			await mkdir(dirname(destPath), { recursive: true });
+			await rm(sidecarPathFor(destPath), { force: true });
+			if ((await stat(staged)).isDirectory()) await rm(destPath, { recursive: true, force: true });
+			await rename(staged, destPath);
+		} catch (err) {
+			await rm(staged, { recursive: true, force: true });
+			throw err;
+		}
 		const meta: SidecarMeta = {
 			sourcePath,
 			sourceMtime: sourceStat.mtimeMs,
@@ -147,9 +184,9 @@ export async function ensureCached(
 		});
 	})();
 
-	INFLIGHT.set(sourcePath, work);
+	INFLIGHT.set(destPath, work);
 	try { await work; }
-	finally { INFLIGHT.delete(sourcePath); }
+	finally { INFLIGHT.delete(destPath); }
 }
 
 /**
@@ -170,6 +207,7 @@ export async function clearConnectionCache(connectionId: string): Promise<void>
  */
 export function _resetForTests(): void {
 	INFLIGHT.clear();
+	LAST_USED.clear();
 }
 
 // ---------------------------------------------------------------------------
-- 
2.43.0


From a48c2aec22f2762af45be2a3def1216e3c9afb71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:19 +0000
Subject: [PATCH 122/145] fix: cache eviction removes a converted workbook as a
 whole and spares copies in use

---
 src/daemon/db/converter-cache.ts | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/daemon/db/converter-cache.ts b/src/daemon/db/converter-cache.ts
index f584863..b061a78 100644
--- a/src/daemon/db/converter-cache.ts
+++ b/src/daemon/db/converter-cache.ts
@@ -266,10 +266,13 @@ async function enforceCap(): Promise<void> {
 	// the sidecar follows.
 	entries.sort((a, b) => a.mtimeMs - b.mtimeMs);
 	let evicted = 0;
+	const usedSince = Date.now() - KEEP_USED_MS;
 	for (const e of entries) {
 		if (total <= cap) break;
+		// A question being answered right now may be about to read it.
+		if ((LAST_USED.get(e.path) ?? 0) > usedSince) continue;
 		try {
-			await rm(e.path, { force: true });
+			await rm(e.path, { recursive: true, force: true });
 			await rm(e.sidecarPath, { force: true });
 			total -= e.size;
 			evicted++;
@@ -291,7 +294,16 @@ async function walkParquet(
 	catch { return; }
 	for (const e of entries) {
 		const full = join(dir, e.name);
-		if (e.isDirectory()) {
+		if (e.isDirectory() && existsSync(sidecarPathFor(full))) {
+			// One workbook: its sheets go together.
+			let size = 0;
+			let mtimeMs = 0;
+			await walkParquet(full, (_path, s) => {
+				size += s.size;
+				mtimeMs = Math.max(mtimeMs, s.mtimeMs);
+			});
+			visit(full, { size, mtimeMs });
+		} else if (e.isDirectory()) {
 			await walkParquet(full, visit);
 		} else if (e.isFile() && full.endsWith('.parquet')) {
 			try {
-- 
2.43.0


From f8f88f3b79886adf208a2e19e3f76ccc2243e3c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:37 +0000
Subject: [PATCH 123/145] fix: data sources of the same name in two
 repositories do not share converted copies

---
 src/daemon/db/converter-cache.ts     | 22 ++++++++++++++++------
 src/daemon/db/drivers/duckdb-file.ts |  2 +-
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/daemon/db/converter-cache.ts b/src/daemon/db/converter-cache.ts
index b061a78..e8986c8 100644
--- a/src/daemon/db/converter-cache.ts
+++ b/src/daemon/db/converter-cache.ts
@@ -1,7 +1,7 @@
 /**
  * Format-converter cache (Phase 3 of plans/data-driver-duckdb-files.md).
  *
- * Layout (`~/.insrc/cache/file-converted/<connection-id>/`):
+ * Layout (`~/.insrc/cache/file-converted/<connection-id>/<source-root-hash>/`):
  *
  *   .meta.json                 -- connection-level metadata
  *   files/
@@ -28,6 +28,7 @@
  * are out of scope (the daemon is the sole writer).
  */
 
+import { createHash } from 'node:crypto';
 import { existsSync, statSync } from 'node:fs';
 import { mkdir, readFile, readdir, rename, rm, stat, writeFile } from 'node:fs/promises';
 import { dirname, join, relative, sep } from 'node:path';
@@ -72,9 +73,18 @@ function stagingRoot(): string {
 	return join(PATHS.insrc, 'cache', 'file-converting');
 }
 
-/** Per-connection cache directory. */
-export function cacheDirFor(connectionId: string): string {
-	return join(cacheRoot(), connectionId, 'files');
+/** Everything cached for one connection id, whatever characters are in it. */
+function connectionDir(connectionId: string): string {
+	return join(cacheRoot(), encodeURIComponent(connectionId).replace(/^\.+$/, dots => '%2E'.repeat(dots.length)));
+}
+
+/**
+ * Per-connection cache directory. Connection ids are unique within one
+ * repo only, so the source's own location is part of it.
+ */
+export function cacheDirFor(connectionId: string, sourceRoot: string): string {
+	const root = createHash('sha256').update(sourceRoot).digest('hex').slice(0, 16);
+	return join(connectionDir(connectionId), root, 'files');
 }
 
 /**
@@ -89,7 +99,7 @@ export function destForSource(
 	sourcePath: string,
 ): string {
 	const rel = relative(sourceRoot, sourcePath);
-	return join(cacheDirFor(connectionId), `${rel}.parquet`);
+	return join(cacheDirFor(connectionId, sourceRoot), `${rel}.parquet`);
 }
 
 /**
@@ -195,7 +205,7 @@ export async function ensureCached(
  * directory doesn't exist.
  */
 export async function clearConnectionCache(connectionId: string): Promise<void> {
-	const dir = join(cacheRoot(), connectionId);
+	const dir = connectionDir(connectionId);
 	try { await rm(dir, { recursive: true, force: true }); }
 	catch (err) { log.warn({ connectionId, err: errMsg(err) }, 'clearConnectionCache failed'); }
 }
diff --git a/src/daemon/db/drivers/duckdb-file.ts b/src/daemon/db/drivers/duckdb-file.ts
index 0a44c6f..93e69dd 100644
--- a/src/daemon/db/drivers/duckdb-file.ts
+++ b/src/daemon/db/drivers/duckdb-file.ts
@@ -679,7 +679,7 @@ class DuckDBFileDriver implements FileDriver {
 				return { rowCount: r.rowCount, durationMs: r.durationMs };
 			});
 		}
-		const cacheDir = literalPath(cacheDirFor(this.id));
+		const cacheDir = literalPath(cacheDirFor(this.id, this.path));
 		// xlsx mirrors source tree but each `.xlsx` becomes a directory
 		// of per-sheet `.parquet`s -- always one extra depth than the
 		// source layout, so always use `**`.
-- 
2.43.0


From 9f2f5c01edf209da3a15f5398443b64589845e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:32:17 +0000
Subject: [PATCH 124/145] fix: a directory of converted files is answered from
 the files that are there now, with the settings in force

---
 src/daemon/db/drivers/duckdb-file.ts | 36 +++++++++++++++++-----------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/src/daemon/db/drivers/duckdb-file.ts b/src/daemon/db/drivers/duckdb-file.ts
index 93e69dd..050b311 100644
--- a/src/daemon/db/drivers/duckdb-file.ts
+++ b/src/daemon/db/drivers/duckdb-file.ts
@@ -65,6 +65,7 @@ import {
 	DuckDBMapValue,
 	DuckDBStructValue,
 	DuckDBUnionValue,
+	listValue,
 } from '@duckdb/node-api';
 import { registerDriver } from '../registry.js';
 import { withConnection } from '../duckdb-pool.js';
@@ -84,12 +85,12 @@ import {
 } from './rdbms-common.js';
 import type { OrchestratorDeps } from './rdbms-common.js';
 import { inferShape } from './shape-common.js';
-import { cacheDirFor, destForSource, ensureCached } from '../converter-cache.js';
+import { destForSource, ensureCached } from '../converter-cache.js';
 import { avroConverter } from './converters/avro.js';
 import { bsonConverter } from './converters/bson.js';
 import { fixedWidthConverter } from './converters/fixed-width.js';
 import { xlsxConverter } from './converters/xlsx.js';
-import { parquetGlobFor, walkSourceTree } from './converters/shared.js';
+import { walkSourceTree } from './converters/shared.js';
 import type { FileConverter } from './converters/types.js';
 
 const log = getLogger('db-duckdb-file');
@@ -176,6 +177,9 @@ const CONVERTERS: Record<'avro' | 'bson' | 'fixed-width' | 'xlsx', FileConverter
 	'xlsx':        xlsxConverter,
 };
 
+/** What `read_xxx(?)` is given: a path / glob, or a list of them. */
+type ReaderPath = string | DuckDBListValue;
+
 function isConvertedKind(kind: DuckDBFileKind): kind is 'avro' | 'bson' | 'fixed-width' | 'xlsx' {
 	return CONVERTED_KINDS.includes(kind);
 }
@@ -619,7 +623,7 @@ class DuckDBFileDriver implements FileDriver {
 	 * other kind `target` is ignored (the connection is already a
 	 * single logical table).
 	 */
-	private async readerPath(target?: string): Promise<string> {
+	private async readerPath(target?: string): Promise<ReaderPath> {
 		if (!isConvertedKind(this.kind)) {
 			return resolveReaderPath(this.kind, this.path, this.isDirectory, this.recursive);
 		}
@@ -637,21 +641,22 @@ class DuckDBFileDriver implements FileDriver {
 	 * only the matching sheet.
 	 *
 	 * Directory: walk per `recursive` + `options.glob`, cache each
-	 * match, return a glob over the cache root mirroring the source
-	 * tree. `target` is not yet plumbed for directory-of-xlsx --
+	 * match, return the list of copies. `target` is not yet plumbed for directory-of-xlsx --
 	 * uncommon enough to defer.
 	 */
 	private async ensureConvertedAndGlob(
 		kind: 'avro' | 'bson' | 'fixed-width' | 'xlsx',
 		target?: string,
-	): Promise<string> {
+	): Promise<ReaderPath> {
 		const converter = CONVERTERS[kind];
 		const opts = this.connectionOptions;
+		// A copy made with other settings (another column layout) is stale.
+		const converterName = opts === undefined ? kind : `${kind} ${JSON.stringify(opts)}`;
 
 		if (!this.isDirectory) {
 			const sourceRoot = dirname(this.path);
 			const dest = destForSource(this.id, sourceRoot, this.path);
-			await ensureCached(this.id, this.path, dest, kind, async (s, d) => {
+			await ensureCached(this.id, this.path, dest, converterName, async (s, d) => {
 				const r = await converter.convertFile(s, d, opts);
 				return { rowCount: r.rowCount, durationMs: r.durationMs };
 			});
@@ -672,19 +677,22 @@ class DuckDBFileDriver implements FileDriver {
 			recursive: this.recursive,
 			...(pattern !== undefined ? { pattern } : {}),
 		});
+		if (sources.length === 0) {
+			throw new Error(`data-driver: no ${kind} files in '${this.path}'`);
+		}
+		// Exactly the copies of the files that are there now: the cache may
+		// still hold copies of removed ones.
+		const copies: string[] = [];
 		for (const src of sources) {
 			const dest = destForSource(this.id, this.path, src);
-			await ensureCached(this.id, src, dest, kind, async (s, d) => {
+			// xlsx: one directory of per-sheet `.parquet`s per workbook.
+			copies.push(kind === 'xlsx' ? join(literalPath(dest), '*.parquet') : literalPath(dest));
+			await ensureCached(this.id, src, dest, converterName, async (s, d) => {
 				const r = await converter.convertFile(s, d, opts);
 				return { rowCount: r.rowCount, durationMs: r.durationMs };
 			});
 		}
-		const cacheDir = literalPath(cacheDirFor(this.id, this.path));
-		// xlsx mirrors source tree but each `.xlsx` becomes a directory
-		// of per-sheet `.parquet`s -- always one extra depth than the
-		// source layout, so always use `**`.
-		if (kind === 'xlsx') return join(cacheDir, '**', '*.parquet');
-		return parquetGlobFor(cacheDir, this.recursive);
+		return listValue(copies);
 	}
 }
 
-- 
2.43.0


From 4449e317ca2fa970ebfa0299f7afac1f0139c71a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:13 +0000
Subject: [PATCH 125/145] fix: columns added to a data source while it is open
 are seen

---
 src/daemon/db/drivers/duckdb-file.ts | 16 +++++++++++++---
 src/daemon/db/drivers/sqlite.ts      |  6 +++---
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/daemon/db/drivers/duckdb-file.ts b/src/daemon/db/drivers/duckdb-file.ts
index 050b311..137af79 100644
--- a/src/daemon/db/drivers/duckdb-file.ts
+++ b/src/daemon/db/drivers/duckdb-file.ts
@@ -33,6 +33,7 @@
  */
 
 import { existsSync, statSync } from 'node:fs';
+import { stat } from 'node:fs/promises';
 import { dirname, join, sep } from 'node:path';
 
 import { getLogger } from '../../../shared/logger.js';
@@ -374,7 +375,7 @@ class DuckDBFileDriver implements FileDriver {
 	readonly family = 'file' as const;
 	readonly kind: DuckDBFileKind;
 
-	private schemaCache: SchemaDescription | null = null;
+	private schemaCache: { readonly stamp: string; readonly schema: SchemaDescription } | null = null;
 
 	constructor(
 		readonly id: string,
@@ -397,7 +398,8 @@ class DuckDBFileDriver implements FileDriver {
 		// Per-target schema cache only valid when no target is passed --
 		// xlsx-with-sheet target uses a distinct underlying parquet so
 		// its describe cannot reuse the unioned-glob cache.
-		if (target === undefined && this.schemaCache !== null) return this.schemaCache;
+		const stamp = target === undefined ? await this.sourceStamp() : null;
+		if (stamp !== null && this.schemaCache?.stamp === stamp) return this.schemaCache.schema;
 
 		const readPath = await this.readerPath(target);
 		const expr = this.readerExpr();
@@ -426,7 +428,7 @@ class DuckDBFileDriver implements FileDriver {
 				? 'header'
 				: 'inferred',
 		};
-		if (target === undefined) this.schemaCache = schema;
+		if (stamp !== null) this.schemaCache = { stamp, schema };
 		return schema;
 	}
 
@@ -593,6 +595,14 @@ class DuckDBFileDriver implements FileDriver {
 	// Helpers
 	// ---------------------------------------------------------------------------
 
+	/** Changes when the source file does; null when that takes looking at
+	 *  a whole directory. */
+	private async sourceStamp(): Promise<string | null> {
+		if (this.isDirectory) return null;
+		const s = await stat(this.path);
+		return `${s.mtimeMs}:${s.size}`;
+	}
+
 	/** SQL `read_xxx(?, ...)` expression. The `?` binds to the
 	 *  caller-provided path / glob from `readerPath()`. */
 	private readerExpr(): string {
diff --git a/src/daemon/db/drivers/sqlite.ts b/src/daemon/db/drivers/sqlite.ts
index 3896832..56eb989 100644
--- a/src/daemon/db/drivers/sqlite.ts
+++ b/src/daemon/db/drivers/sqlite.ts
@@ -146,9 +146,9 @@ class SqliteDriver implements RdbmsDriver {
 			return fk === undefined ? base : { ...base, foreignKey: fk };
 		});
 
-		const result: SchemaDescription = { target, columns, source: 'introspect' };
-		this.schemaCache.set(target, result);
-		return result;
+		// Not remembered: the table may change while the connection is open,
+		// and asking again is cheap.
+		return { target, columns, source: 'introspect' };
 	}
 
 	async sample(target: string, opts: SampleOpts): Promise<SampleResult> {
-- 
2.43.0


From 532de1fb753bdce30077089e5da3d186edbf6a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:28 +0000
Subject: [PATCH 126/145] fix: nullable avro fields keep their type, and an
 avro file without a header is refused instead of waited for

---
 src/daemon/db/drivers/converters/avro.ts | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/daemon/db/drivers/converters/avro.ts b/src/daemon/db/drivers/converters/avro.ts
index d06f67b..8d22fe4 100644
--- a/src/daemon/db/drivers/converters/avro.ts
+++ b/src/daemon/db/drivers/converters/avro.ts
@@ -60,7 +60,8 @@ interface AvroFieldMap {
  * optional"; wider unions fall back to JSON-stringification.
  */
 function classifyType(t: avsc.Type): { type: string; optional: boolean; stringify: boolean } {
-	const typeName = t.typeName;
+	// avsc calls the two representations `union:unwrapped` / `union:wrapped`.
+	const typeName = t.typeName.startsWith('union:') ? 'union' : t.typeName;
 	switch (typeName) {
 		case 'boolean': return { type: 'BOOLEAN', optional: false, stringify: false };
 		case 'int':     return { type: 'INT32',   optional: false, stringify: false };
@@ -94,6 +95,10 @@ async function firstSchemaFromDecoder(decoder: avsc.streams.BlockDecoder): Promi
 	return new Promise<avsc.Type>((resolve, reject) => {
 		decoder.once('metadata', (writerType: avsc.Type) => resolve(writerType));
 		decoder.once('error', reject);
+		// All read and still no header: not an Avro file.
+		decoder.once('finish', () => setImmediate(() => {
+			reject(new Error('converter-avro: the file has no Avro header'));
+		}));
 	});
 }
 
-- 
2.43.0


From d0ebf3d2f10c912ae371218bdb8fb703f20b1670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:43 +0000
Subject: [PATCH 127/145] fix: converted worksheets keep formula results, rich
 text, repeated titles and values unlike the first rows'

---
 src/daemon/db/drivers/converters/xlsx.ts | 45 +++++++++++++++++-------
 1 file changed, 33 insertions(+), 12 deletions(-)

diff --git a/src/daemon/db/drivers/converters/xlsx.ts b/src/daemon/db/drivers/converters/xlsx.ts
index 407d08c..c4c4f70 100644
--- a/src/daemon/db/drivers/converters/xlsx.ts
+++ b/src/daemon/db/drivers/converters/xlsx.ts
@@ -12,8 +12,8 @@
  * Type fidelity (parquetjs-lite limits): scalar types only. Numbers
  * become DOUBLE, dates become TIMESTAMP_MILLIS, booleans become
  * BOOLEAN, strings + everything else become UTF8. No nested support.
- * Header row is the first row of each sheet; type inference samples
- * up to 50 data rows.
+ * Header row is the first row of each sheet; types are inferred from
+ * all data rows.
  */
 
 import { createRequire } from 'node:module';
@@ -37,8 +37,6 @@ import type {
 
 const log = getLogger('converter-xlsx');
 
-const TYPE_INFER_ROWS = 50;
-
 // eslint-disable-next-line @typescript-eslint/no-explicit-any
 function inferType(values: readonly unknown[]): string {
 	let sawNumber = false;
@@ -50,7 +48,7 @@ function inferType(values: readonly unknown[]): string {
 		if (v === null || v === undefined) continue;
 		if (typeof v === 'number') {
 			sawNumber = true;
-			if (!Number.isInteger(v)) sawInt = false;
+			if (!Number.isSafeInteger(v)) sawInt = false;
 			continue;
 		}
 		if (typeof v === 'boolean') { sawBool = true; continue; }
@@ -59,12 +57,29 @@ function inferType(values: readonly unknown[]): string {
 		sawString = true;
 	}
 	if (sawString) return 'UTF8';
-	if (sawDate && !sawNumber && !sawBool) return 'TIMESTAMP_MILLIS';
+	if (sawDate) return sawNumber || sawBool ? 'UTF8' : 'TIMESTAMP_MILLIS';
 	if (sawNumber && !sawBool) return sawInt ? 'INT64' : 'DOUBLE';
 	if (sawBool && !sawNumber) return 'BOOLEAN';
 	return 'UTF8';
 }
 
+/**
+ * The value a cell shows: a formula's result, the text of rich text and
+ * links, nothing for an error.
+ */
+function cellValue(v: unknown): unknown {
+	if (v === null || typeof v !== 'object' || v instanceof Date) return v;
+	if ('richText' in v && Array.isArray(v.richText)) {
+		return (v.richText as { text: string }[]).map(part => part.text).join('');
+	}
+	if ('hyperlink' in v && 'text' in v) return cellValue(v.text);
+	if ('formula' in v || 'sharedFormula' in v) {
+		return 'result' in v ? cellValue(v.result) : null;
+	}
+	if ('error' in v) return null;
+	return v;
+}
+
 function coerceFor(v: unknown, type: string): unknown {
 	if (v === null || v === undefined) return null;
 	switch (type) {
@@ -138,8 +153,14 @@ async function convertSheet(sheet: ExcelJS.Worksheet, dest: string): Promise<num
 	const headerCells = headerRow.values as unknown[];
 	// exceljs uses 1-indexed cell arrays; element 0 is undefined.
 	const columns: string[] = [];
+	const taken = new Set<string>();
 	for (let i = 1; i < headerCells.length; i++) {
-		columns.push(String(headerCells[i] ?? `col_${i}`));
+		const title = String(cellValue(headerCells[i]) ?? `col_${i}`);
+		// Columns of the same title keep apart (names are case-insensitive).
+		let name = title;
+		for (let n = 2; taken.has(name.toLowerCase()); n++) name = `${title}_${n}`;
+		taken.add(name.toLowerCase());
+		columns.push(name);
 	}
 	if (columns.length === 0) {
 		// Empty sheet -- write an empty Parquet with one stub column so
@@ -150,13 +171,13 @@ async function convertSheet(sheet: ExcelJS.Worksheet, dest: string): Promise<num
 		return 0;
 	}
 
-	// First pass: sample up to TYPE_INFER_ROWS data rows to infer types.
+	// First pass: infer types from every row; one that does not fit the
+	// type would be rounded or dropped.
 	const samplesByCol: unknown[][] = columns.map(() => []);
-	const lastRowSample = Math.min(sheet.rowCount, 1 + TYPE_INFER_ROWS);
-	for (let r = 2; r <= lastRowSample; r++) {
+	for (let r = 2; r <= sheet.rowCount; r++) {
 		const row = sheet.getRow(r).values as unknown[];
 		for (let c = 0; c < columns.length; c++) {
-			samplesByCol[c]!.push(row[c + 1]);
+			samplesByCol[c]!.push(cellValue(row[c + 1]));
 		}
 	}
 	const types = columns.map((_, i) => inferType(samplesByCol[i]!));
@@ -173,7 +194,7 @@ async function convertSheet(sheet: ExcelJS.Worksheet, dest: string): Promise<num
 		const out: Record<string, unknown> = {};
 		let allNull = true;
 		for (let c = 0; c < columns.length; c++) {
-			const v = coerceFor(rowVals[c + 1], types[c]!);
+			const v = coerceFor(cellValue(rowVals[c + 1]), types[c]!);
 			out[columns[c]!] = v;
 			if (v !== null) allNull = false;
 		}
-- 
2.43.0


From 47e3e605b4f4584dab0e505e91a0de4c1ffaf093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:07 +0000
Subject: [PATCH 128/145] fix: converted documents keep nulls, mixed types,
 large integers and late fields

---
 src/daemon/db/drivers/converters/bson.ts | 48 ++++++++++++++++--------
 1 file changed, 32 insertions(+), 16 deletions(-)

diff --git a/src/daemon/db/drivers/converters/bson.ts b/src/daemon/db/drivers/converters/bson.ts
index d83697a..dd4f7fa 100644
--- a/src/daemon/db/drivers/converters/bson.ts
+++ b/src/daemon/db/drivers/converters/bson.ts
@@ -26,15 +26,13 @@
  *   RegExp / Code         UTF8 (string-ified)
  *
  * Heterogeneous documents (some have field X, some don't) merge into
- * a union schema with all fields nullable. Schema inference samples
- * the first 1000 documents; rare fields appearing only beyond that
- * sample are dropped (typed as a schema warning).
+ * a union schema with all fields nullable, inferred from all documents.
  */
 
 import { createRequire } from 'node:module';
 import { readFile } from 'node:fs/promises';
 
-import { BSON, deserialize, ObjectId, Decimal128, Binary, Long } from 'bson';
+import { BSON, BSONRegExp, deserialize, ObjectId, Decimal128, Binary, Long } from 'bson';
 
 const _require = createRequire(import.meta.url);
 // eslint-disable-next-line @typescript-eslint/no-explicit-any
@@ -51,9 +49,6 @@ import type {
 
 const log = getLogger('converter-bson');
 
-// Schema inference uses up to this many docs.
-const INFER_SAMPLE = 1000;
-
 interface FieldKnowledge {
 	readonly name: string;
 	parquetType: string;
@@ -65,7 +60,7 @@ function classifyValue(v: unknown): { type: string; stringify: boolean } {
 	if (v === null || v === undefined) return { type: 'UTF8', stringify: false };
 	if (typeof v === 'boolean') return { type: 'BOOLEAN', stringify: false };
 	if (typeof v === 'string')  return { type: 'UTF8',    stringify: false };
-	if (typeof v === 'number')  return Number.isInteger(v)
+	if (typeof v === 'number')  return Number.isSafeInteger(v)
 		? { type: 'INT64',  stringify: false }
 		: { type: 'DOUBLE', stringify: false };
 	if (typeof v === 'bigint')  return { type: 'INT64', stringify: false };
@@ -74,6 +69,7 @@ function classifyValue(v: unknown): { type: string; stringify: boolean } {
 	if (v instanceof Decimal128) return { type: 'UTF8', stringify: false };
 	if (v instanceof Binary)    return { type: 'BYTE_ARRAY', stringify: false };
 	if (v instanceof Long)      return { type: 'INT64', stringify: false };
+	if (v instanceof BSONRegExp || v instanceof RegExp) return { type: 'UTF8', stringify: false };
 	if (Array.isArray(v))       return { type: 'UTF8', stringify: true };
 	if (typeof v === 'object')  return { type: 'UTF8', stringify: true };
 	return { type: 'UTF8', stringify: false };
@@ -94,25 +90,37 @@ function mergeType(a: string, b: string): string {
 
 function serialiseValue(v: unknown, fm: FieldKnowledge): unknown {
 	if (v === null || v === undefined) return null;
+	if (fm.parquetType === 'UTF8' && !fm.stringify && typeof v !== 'string') {
+		// A field of mixed scalar types is text.
+		if (v instanceof Date) return v.toISOString();
+		if (v instanceof ObjectId) return v.toHexString();
+		if (v instanceof Binary) return bytesOf(v).toString('base64');
+		if (v instanceof BSONRegExp) return `/${v.pattern}/${v.options}`;
+		return String(v);
+	}
 	if (fm.stringify) {
 		try { return JSON.stringify(v, replacer); }
 		catch { return null; }
 	}
 	if (v instanceof ObjectId)  return v.toHexString();
 	if (v instanceof Decimal128) return v.toString();
-	if (v instanceof Long)      return Number(v);
+	if (v instanceof Long)      return fm.parquetType === 'DOUBLE' ? Number(v) : v.toBigInt();
 	if (v instanceof Date)      return v.getTime();
-	if (v instanceof Binary)    return v.buffer;
+	if (v instanceof Binary)    return bytesOf(v);
 	return v;
 }
 
+function bytesOf(v: Binary): Buffer {
+	return Buffer.from(v.buffer).subarray(0, v.length());
+}
+
 /** JSON.stringify replacer that handles BSON-specific types. */
 function replacer(_key: string, v: unknown): unknown {
 	if (v instanceof ObjectId)   return v.toHexString();
 	if (v instanceof Decimal128) return v.toString();
-	if (v instanceof Long)       return Number(v);
+	if (v instanceof Long)       return Number.isSafeInteger(Number(v)) ? Number(v) : v.toString();
 	if (v instanceof Date)       return v.toISOString();
-	if (v instanceof Binary)     return Buffer.from(v.buffer).toString('base64');
+	if (v instanceof Binary)     return bytesOf(v).toString('base64');
 	return v;
 }
 
@@ -140,12 +148,14 @@ class BsonConverter implements FileConverter {
 	): Promise<ConvertResult> {
 		const t0 = Date.now();
 		const docs = await readDocs(source);
-		// Schema inference -- sample first INFER_SAMPLE docs, merge
-		// observed field types.
+		// Schema inference -- merge the field types of all documents.
 		const fieldMap = new Map<string, FieldKnowledge>();
-		const sample = docs.slice(0, INFER_SAMPLE);
-		for (const doc of sample) {
+		const nullOnly = new Set<string>();
+		for (const doc of docs) {
 			for (const [k, v] of Object.entries(doc)) {
+				// Says nothing about the type; a field that is never anything
+				// else gets its column below.
+				if (v === null || v === undefined) { nullOnly.add(k); continue; }
 				const cls = classifyValue(v);
 				const existing = fieldMap.get(k);
 				if (existing === undefined) {
@@ -162,6 +172,12 @@ class BsonConverter implements FileConverter {
 			}
 		}
 
+		for (const name of nullOnly) {
+			if (!fieldMap.has(name)) {
+				fieldMap.set(name, { name, parquetType: 'UTF8', optional: true, stringify: false });
+			}
+		}
+
 		if (fieldMap.size === 0) {
 			// Empty BSON file -- write empty Parquet with a stub column.
 			const emptySchema = new parquet.ParquetSchema({ _empty: { type: 'UTF8', optional: true } });
-- 
2.43.0


From 42e6abfff44ce6fc34a5adcd58e0e1e70e8dc2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:37:13 +0000
Subject: [PATCH 129/145] fix: the password of a connection URL with several
 hosts goes to the keychain

---
 src/daemon/db/secrets.ts | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/daemon/db/secrets.ts b/src/daemon/db/secrets.ts
index fce9925..f7d3cc9 100644
--- a/src/daemon/db/secrets.ts
+++ b/src/daemon/db/secrets.ts
@@ -90,9 +90,13 @@ export async function extractUrlPassword(
 	try {
 		u = new URL(rawUrl);
 	} catch {
-		// Not a URL (sqlite path, mongodb atlas SRV without scheme, ...)
-		// -- nothing to redact.
-		return rawUrl;
+		// Not a URL for the parser (sqlite path, several hosts with ports, a
+		// password with bare `/`, ...): the password, if any, is what stands
+		// between the user and the last `@`.
+		const m = /^([a-z][a-z0-9+.-]*:\/\/[^/?#:@]*:)([^]+)(@[^@]*)$/i.exec(rawUrl);
+		if (m === null) { return rawUrl; }
+		await setSecret(ref, m[2]!);
+		return `${m[1]}\${secret:${ref}}${m[3]}`;
 	}
 	if (u.password === '') { return rawUrl; }
 	// Stored the way the URL spells it (percent-encoded), so that putting
-- 
2.43.0


From 064c13ce2f4d14a97bc2e8bbba5a8a148437017e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:42 +0000
Subject: [PATCH 130/145] fix: a question running into the shutdown of data
 connections opens nothing that is never closed

---
 src/daemon/db/pool.ts | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/daemon/db/pool.ts b/src/daemon/db/pool.ts
index 998608f..ac360a6 100644
--- a/src/daemon/db/pool.ts
+++ b/src/daemon/db/pool.ts
@@ -63,6 +63,7 @@ function newEntry(config: ConnectionConfig): PoolEntry {
 export class DriverPool {
 	private readonly entries = new Map<string, PoolEntry>();
 	private lastReload: Promise<unknown> = Promise.resolve();
+	private shutdowns = 0;
 
 	constructor(private readonly repoPath: string) { }
 
@@ -73,13 +74,17 @@ export class DriverPool {
 	 */
 	reload(): Promise<{ warnings: readonly string[] }> {
 		// One after the other, so that the list read last is the one in force.
-		const run = this.lastReload.then(() => this.reloadNow(), () => this.reloadNow());
+		const shutdowns = this.shutdowns;
+		const now = (): Promise<{ warnings: readonly string[] }> => this.reloadNow(shutdowns);
+		const run = this.lastReload.then(now, now);
 		this.lastReload = run;
 		return run;
 	}
 
-	private async reloadNow(): Promise<{ warnings: readonly string[] }> {
+	private async reloadNow(shutdowns: number): Promise<{ warnings: readonly string[] }> {
 		const { resolved, warnings } = await loadConnections(this.repoPath);
+		// Shut down meanwhile: nothing opened from here on would be closed.
+		if (this.shutdowns !== shutdowns) { return { warnings }; }
 		const replaced: PoolEntry[] = [];
 
 		const nextIds = new Set(resolved.map(c => c.id));
@@ -154,6 +159,7 @@ export class DriverPool {
 	}
 
 	async closeAll(): Promise<void> {
+		this.shutdowns++;
 		const entries = Array.from(this.entries.values());
 		this.entries.clear();
 		for (const entry of entries) {
-- 
2.43.0


From 953374f916ff61496cf31c924c0e48e0c3e934b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:01:31 +0000
Subject: [PATCH 131/145] fix: a question does not take a converted copy being
 evicted for present

---
 src/daemon/db/converter-cache.ts | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/daemon/db/converter-cache.ts b/src/daemon/db/converter-cache.ts
index e8986c8..aa7b971 100644
--- a/src/daemon/db/converter-cache.ts
+++ b/src/daemon/db/converter-cache.ts
@@ -50,7 +50,7 @@ interface SidecarMeta {
 	readonly converter: string;
 }
 
-/** Conversions in flight, by destination. */
+/** Conversions and evictions in flight, by destination. */
 const INFLIGHT = new Map<string, Promise<void>>();
 
 /** When each destination was last asked for; eviction spares recent ones. */
@@ -152,10 +152,9 @@ export async function ensureCached(
 ): Promise<void> {
 	LAST_USED.set(destPath, Date.now());
 	for (;;) {
+		await INFLIGHT.get(destPath);
 		if (await isCached(sourcePath, destPath, converterName)) return;
-		const inflight = INFLIGHT.get(destPath);
-		if (inflight === undefined) break;
-		await inflight;
+		if (!INFLIGHT.has(destPath)) break;
 	}
 
 	const work = (async (): Promise<void> => {
@@ -281,14 +280,21 @@ async function enforceCap(): Promise<void> {
 		if (total <= cap) break;
 		// A question being answered right now may be about to read it.
 		if ((LAST_USED.get(e.path) ?? 0) > usedSince) continue;
-		try {
-			await rm(e.path, { recursive: true, force: true });
-			await rm(e.sidecarPath, { force: true });
-			total -= e.size;
-			evicted++;
-		} catch (err) {
-			log.warn({ path: e.path, err: errMsg(err) }, 'evict failed');
-		}
+		if (INFLIGHT.has(e.path)) continue;
+		const removal = (async (): Promise<void> => {
+			try {
+				await rm(e.path, { recursive: true, force: true });
+				await rm(e.sidecarPath, { force: true });
+				total -= e.size;
+				evicted++;
+			} catch (err) {
+				log.warn({ path: e.path, err: errMsg(err) }, 'evict failed');
+			}
+		})();
+		// A question asked now waits instead of taking it for present.
+		INFLIGHT.set(e.path, removal);
+		await removal;
+		INFLIGHT.delete(e.path);
 	}
 	if (evicted > 0) {
 		log.info({ evicted, totalAfter: total, cap }, 'cache eviction complete');
-- 
2.43.0


From 7cf78f9e6001cb63059debd1dd5d72bce9100541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:58:27 +0000
Subject: [PATCH 132/145] fix: index TypeScript abstract classes and their
 methods

---
 src/indexer/parser/typescript.ts | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/indexer/parser/typescript.ts b/src/indexer/parser/typescript.ts
index bf67cb5..e0faef6 100644
--- a/src/indexer/parser/typescript.ts
+++ b/src/indexer/parser/typescript.ts
@@ -170,6 +170,7 @@ function walkNode(
       break;
 
     case 'class_declaration':
+    case 'abstract_class_declaration':
       extractClass(node, source, repo, repoId, filePath, lang, fileId, now, entities, relations);
       return; // class walker handles children
 
@@ -704,7 +705,7 @@ function collectClassHttpFields(classNode: SyntaxNode): Set<string> {
   for (const c of classNode.namedChildren) stack.push(c);
   while (stack.length > 0) {
     const n = stack.pop()!;
-    if (n.type === 'class_declaration' || n.type === 'class') continue;  // nested class: different scope
+    if (n.type === 'class_declaration' || n.type === 'abstract_class_declaration' || n.type === 'class') continue;  // nested class: different scope
     if (n.type === 'required_parameter' || n.type === 'optional_parameter'
         || n.type === 'public_field_definition' || n.type === 'property_signature') {
       const typeNode = n.childForFieldName('type');
@@ -857,7 +858,7 @@ function walkForCalls(
   if (SCOPE_NODE_TYPES.has(node.type)) {
     axiosScopes.push(collectScopeFrame(node));
     pushedScope = true;
-  } else if (node.type === 'class_declaration' || node.type === 'class') {
+  } else if (node.type === 'class_declaration' || node.type === 'abstract_class_declaration' || node.type === 'class') {
     prevClassHttpFields = currentClassHttpFields;
     currentClassHttpFields = collectClassHttpFields(node);
   }
-- 
2.43.0


From ce03611dacc05cc0244fabff829fb81379f46ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:58:27 +0000
Subject: [PATCH 133/145] fix: index generator functions assigned to a variable

---
 src/indexer/parser/typescript.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/indexer/parser/typescript.ts b/src/indexer/parser/typescript.ts
index e0faef6..415f865 100644
--- a/src/indexer/parser/typescript.ts
+++ b/src/indexer/parser/typescript.ts
@@ -517,7 +517,7 @@ function extractArrowFunction(
     const valueNode = declarator.childForFieldName('value');
     if (!nameNode || !valueNode) continue;
     if (valueNode.type !== 'arrow_function' && valueNode.type !== 'function_expression' &&
-        valueNode.type !== 'generator_function_expression') continue;
+        valueNode.type !== 'generator_function') continue;
 
     const name    = nameNode.text;
     const isAsync = valueNode.children.some(c => c.type === 'async');
-- 
2.43.0


From 266ebe737a5de2b2eaf9310702a9f5a1d5095ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:58:27 +0000
Subject: [PATCH 134/145] fix: record the superclass of JavaScript classes

---
 src/indexer/parser/typescript.ts | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/indexer/parser/typescript.ts b/src/indexer/parser/typescript.ts
index 415f865..3a94f3e 100644
--- a/src/indexer/parser/typescript.ts
+++ b/src/indexer/parser/typescript.ts
@@ -361,6 +361,15 @@ function extractClassHeritage(
           });
         }
       }
+    } else {
+      // JavaScript grammar: no clause nodes, the superclass expression itself
+      relations.push({
+        kind:     'INHERITS',
+        from:     classId,
+        to:       child.text,
+        resolved: false,
+        meta:     { file: filePath, repo },
+      });
     }
   }
 }
-- 
2.43.0


From f93d7154ff39625f3dbdd91ac60a2f715ba2203c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:58:27 +0000
Subject: [PATCH 135/145] fix: index Go type aliases and the methods of
 interfaces

---
 src/indexer/parser/go.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/indexer/parser/go.ts b/src/indexer/parser/go.ts
index b565f97..69bf78b 100644
--- a/src/indexer/parser/go.ts
+++ b/src/indexer/parser/go.ts
@@ -302,7 +302,7 @@ function extractTypeSpec(
     // Collect method signatures from the interface body for the satisfaction pass
     const methodSigs: string[] = [];
     for (const member of typeNode.namedChildren) {
-      if (member.type === 'method_spec') {
+      if (member.type === 'method_elem' || member.type === 'method_spec') {
         const mName   = member.childForFieldName('name')?.text ?? '';
         const mParams = member.childForFieldName('parameters')?.text ?? '';
         const mResult = member.childForFieldName('result')?.text ?? '';
@@ -419,7 +419,7 @@ function walkGoNode(
     case 'type_declaration':
       // May contain multiple type_spec children
       for (const child of node.namedChildren) {
-        if (child.type === 'type_spec') {
+        if (child.type === 'type_spec' || child.type === 'type_alias') {
           extractTypeSpec(child, repo, repoId, filePath, fileId, now, entities, relations);
         }
       }
-- 
2.43.0


From 91ecec0c6be8c129a1a12c0715622a543e0ba8e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:58:27 +0000
Subject: [PATCH 136/145] fix: record the interfaces a Java interface extends

---
 src/indexer/parser/java.ts | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/indexer/parser/java.ts b/src/indexer/parser/java.ts
index bd51853..d28fdc0 100644
--- a/src/indexer/parser/java.ts
+++ b/src/indexer/parser/java.ts
@@ -358,9 +358,8 @@ function handleInterface(
 	// `interface A extends B, C` -- super-interfaces are INHERITS edges
 	// (Java reuses `extends` for interface inheritance; we treat it as
 	// INHERITS to match Python / TS conventions).
-	const extendsNode = node.childForFieldName('extends_interfaces')
-		?? node.childForFieldName('superInterfaces');
-	if (extendsNode !== null) {
+	const extendsNode = node.namedChildren.find(c => c.type === 'extends_interfaces');
+	if (extendsNode !== undefined) {
 		const list = extendsNode.namedChildren.find(c => c.type === 'type_list')
 			?? extendsNode;
 		for (const t of list.namedChildren) {
-- 
2.43.0


From b2c5bd951a3b11e21a1c8179b4004ccae2531dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:58:27 +0000
Subject: [PATCH 137/145] fix: index the types nested in a Java enum

---
 src/indexer/parser/java.ts | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/indexer/parser/java.ts b/src/indexer/parser/java.ts
index d28fdc0..73942f3 100644
--- a/src/indexer/parser/java.ts
+++ b/src/indexer/parser/java.ts
@@ -423,6 +423,15 @@ function walkClassBody(
 						case 'field_declaration':
 							handleField(inner, ctx, containerCtx);
 							break;
+						case 'class_declaration':
+						case 'record_declaration':
+						case 'enum_declaration':
+						case 'annotation_type_declaration':
+							handleClassLike(inner, ctx, containerCtx);
+							break;
+						case 'interface_declaration':
+							handleInterface(inner, ctx, containerCtx);
+							break;
 						default: break;
 					}
 				}
-- 
2.43.0


From 6c394fa9a3e398a2a843db9d584d66d1f14d59f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:58:27 +0000
Subject: [PATCH 138/145] fix: find Python definitions and imports inside
 top-level if and try blocks

---
 src/indexer/parser/python.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/indexer/parser/python.ts b/src/indexer/parser/python.ts
index 639a058..4ebb2fb 100644
--- a/src/indexer/parser/python.ts
+++ b/src/indexer/parser/python.ts
@@ -274,7 +274,7 @@ function walkPythonNode(
           walkPythonNode(
             child, repo, repoId, filePath, fileId, now,
             entities, relations,
-            allNames, hasAll, false,
+            allNames, hasAll, true,
           );
         }
       }
-- 
2.43.0


From dfd2f2dda25d154550b9f0bfc46e4dfec52edae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:59:11 +0000
Subject: [PATCH 139/145] fix: keep the wildcard of a Scala import

---
 src/indexer/parser/scala.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/indexer/parser/scala.ts b/src/indexer/parser/scala.ts
index 93ca2d0..a641201 100644
--- a/src/indexer/parser/scala.ts
+++ b/src/indexer/parser/scala.ts
@@ -325,7 +325,7 @@ function handleImport(node: SyntaxNode, ctx: WalkCtx): void {
 			prefixIds.push(c.text);
 		} else if (c.type === 'namespace_selectors') {
 			selectorsNode = c;
-		} else if (c.type === 'wildcard') {
+		} else if (c.type === 'namespace_wildcard' || c.type === 'wildcard') {
 			prefixIds.push('_');
 		}
 	}
@@ -342,6 +342,8 @@ function handleImport(node: SyntaxNode, ctx: WalkCtx): void {
 		if (sel.type === 'identifier') {
 			const fullName = `${prefix}.${sel.text}`;
 			emitImportEdge(ctx, fullName, undefined);
+		} else if (sel.type === 'namespace_wildcard') {
+			emitImportEdge(ctx, `${prefix}._`, undefined);
 		} else if (sel.type === 'arrow_renamed_identifier') {
 			// `Foo => F` -- two identifier children.
 			const ids = sel.namedChildren.filter(c => c.type === 'identifier');
-- 
2.43.0


From 02ce40f3e04839b536d6bc639ae0b092084536c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:59:11 +0000
Subject: [PATCH 140/145] fix: do not take lines of a fenced code block for
 Markdown headings

---
 src/indexer/parser/artifact.ts | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/indexer/parser/artifact.ts b/src/indexer/parser/artifact.ts
index 82ac2c0..508276a 100644
--- a/src/indexer/parser/artifact.ts
+++ b/src/indexer/parser/artifact.ts
@@ -212,8 +212,18 @@ function parseMarkdownSections(
 ): Entity[] {
   const lines = source.split('\n');
   const headings: HeadingMark[] = [];
+  let fence = '';  // the marker of the code fence we are inside, if any
 
   for (let i = 0; i < lines.length; i++) {
+    const mark = lines[i]!.match(/^ {0,3}(`{3,}|~{3,})(.*)$/);
+    if (fence !== '') {
+      if (mark && mark[1]!.startsWith(fence) && mark[2]!.trim() === '') fence = '';
+      continue;
+    }
+    if (mark && !(mark[1]!.startsWith('`') && mark[2]!.includes('`'))) {
+      fence = mark[1]!;
+      continue;
+    }
     const match = lines[i]!.match(/^(#{1,6})\s+(.+)/);
     if (match) {
       headings.push({
-- 
2.43.0


From 9717f671bc3df74660703ed1dc90b83a1eea8d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:32:09 +0000
Subject: [PATCH 141/145] fix: match **/ in search_glob against whole
 directories only, and escaped letters as letters

---
 src/daemon/tools/builtins/search/glob.ts | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/daemon/tools/builtins/search/glob.ts b/src/daemon/tools/builtins/search/glob.ts
index 5c02e9c..7c35474 100644
--- a/src/daemon/tools/builtins/search/glob.ts
+++ b/src/daemon/tools/builtins/search/glob.ts
@@ -100,16 +100,23 @@ function globToRegex(pattern: string): RegExp {
   while (i < pattern.length) {
     const c = pattern[i]!;
     if (c === '\\' && i + 1 < pattern.length) {
-      re += '\\' + pattern[i + 1];
+      const next = pattern[i + 1]!;
+      re += /\w/.test(next) ? next : '\\' + next;
       i += 2;
       continue;
     }
     if (c === '*') {
       if (pattern[i + 1] === '*') {
-        // **  ->  .* (crosses directory boundaries)
-        re += '.*';
+        // **  ->  .* (crosses directory boundaries); a whole `**/` segment
+        // stands for whole directories, so **/a.ts does not match xa.ts
+        const wholeSegment = i === 0 || pattern[i - 1] === '/';
         i += 2;
-        if (pattern[i] === '/') { i++; }
+        if (pattern[i] === '/') {
+          i++;
+          re += wholeSegment ? '(?:.*/)?' : '.*';
+        } else {
+          re += '.*';
+        }
         continue;
       }
       re += '[^/]*';
-- 
2.43.0


From 794916cb77d97cfabce866962e66f94a3979a55b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:39:57 +0000
Subject: [PATCH 142/145] fix: post the comment given when reopening an issue

---
 src/daemon/tools/builtins/gh/issue.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/daemon/tools/builtins/gh/issue.ts b/src/daemon/tools/builtins/gh/issue.ts
index 9ae5f73..57987b7 100644
--- a/src/daemon/tools/builtins/gh/issue.ts
+++ b/src/daemon/tools/builtins/gh/issue.ts
@@ -359,7 +359,7 @@ function stateChangeTool(id: string, op: 'close' | 'reopen'): Tool {
       if (!n) { return fail(id, 'missing number'); }
       const argv = ['gh', 'issue', op, String(n)];
       if (op === 'close' && str(input, 'reason'))   { argv.push('-r', str(input, 'reason')!); }
-      if (op === 'close' && str(input, 'comment')) { argv.push('-c', str(input, 'comment')!); }
+      if (str(input, 'comment'))                    { argv.push('-c', str(input, 'comment')!); }
       if (str(input, 'repo'))                       { argv.push('-R', str(input, 'repo')!); }
       const r = await ghExec(argv, { cwd: str(input, 'cwd') });
       if (r.code !== 0) { return shellFail(id, r); }
-- 
2.43.0


From 2ab9b6684cf45f033c86796daf6c7cf6c4583c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:39:57 +0000
Subject: [PATCH 143/145] fix: pass all filters of ec2 describe-instances, not
 only the last

---
 src/daemon/tools/builtins/cloud/aws/ec2.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/daemon/tools/builtins/cloud/aws/ec2.ts b/src/daemon/tools/builtins/cloud/aws/ec2.ts
index b52c93d..aab1de5 100644
--- a/src/daemon/tools/builtins/cloud/aws/ec2.ts
+++ b/src/daemon/tools/builtins/cloud/aws/ec2.ts
@@ -65,7 +65,8 @@ export const awsEc2ListTool: Tool = {
     const filters = Array.isArray(input['filters'])
       ? (input['filters'] as unknown[]).map(String).filter(s => s.length > 0)
       : [];
-    for (const f of filters) { argv.push('--filters', f); }
+    // one flag with all the values: the AWS CLI keeps only the last of repeated flags
+    if (filters.length > 0) { argv.push('--filters', ...filters); }
     const max = (input['maxResults'] as number | undefined);
     if (typeof max === 'number' && Number.isFinite(max)) { argv.push('--max-results', String(max)); }
     argv.push(...awsArgv(flags));
-- 
2.43.0


From 124d09e6888a23f32b8e25cf1bbbc70f9ba08076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:39:57 +0000
Subject: [PATCH 144/145] fix: give each cloud or kubectl call a temporary file
 of its own

---
 src/daemon/tools/builtins/cloud/aws/cloudformation.ts | 3 ++-
 src/daemon/tools/builtins/cloud/aws/lambda.ts         | 5 +++--
 src/daemon/tools/builtins/cloud/gcp/functions.ts      | 3 ++-
 src/daemon/tools/builtins/cloud/gcp/secrets.ts        | 5 +++--
 src/daemon/tools/builtins/k8s/index.ts                | 3 ++-
 5 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/daemon/tools/builtins/cloud/aws/cloudformation.ts b/src/daemon/tools/builtins/cloud/aws/cloudformation.ts
index bb1699a..9a7f19d 100644
--- a/src/daemon/tools/builtins/cloud/aws/cloudformation.ts
+++ b/src/daemon/tools/builtins/cloud/aws/cloudformation.ts
@@ -2,6 +2,7 @@
  * AWS CloudFormation -- list / deploy / delete.
  */
 
+import { randomUUID } from 'node:crypto';
 import { promises as fs } from 'node:fs';
 import { tmpdir } from 'node:os';
 import { join } from 'node:path';
@@ -81,7 +82,7 @@ interface AwsCfnDeployData {
 }
 
 async function writeTemplateToTemp(body: string): Promise<string> {
-  const path = join(tmpdir(), `insrc-cfn-${process.pid}-${Date.now()}.yaml`);
+  const path = join(tmpdir(), `insrc-cfn-${randomUUID()}.yaml`);
   await fs.writeFile(path, body, 'utf8');
   return path;
 }
diff --git a/src/daemon/tools/builtins/cloud/aws/lambda.ts b/src/daemon/tools/builtins/cloud/aws/lambda.ts
index ab6e191..88336b5 100644
--- a/src/daemon/tools/builtins/cloud/aws/lambda.ts
+++ b/src/daemon/tools/builtins/cloud/aws/lambda.ts
@@ -2,6 +2,7 @@
  * AWS Lambda -- invoke / list / update-code.
  */
 
+import { randomUUID } from 'node:crypto';
 import { promises as fs } from 'node:fs';
 import { tmpdir } from 'node:os';
 import { join } from 'node:path';
@@ -89,8 +90,8 @@ export const awsLambdaInvokeTool: Tool = {
     const payloadStr = typeof input['payloadString'] === 'string'
       ? (input['payloadString'] as string)
       : JSON.stringify(input['payload'] ?? {});
-    const payloadPath = join(tmpdir(), `insrc-lambda-in-${process.pid}-${Date.now()}.json`);
-    const responsePath = join(tmpdir(), `insrc-lambda-out-${process.pid}-${Date.now()}.json`);
+    const payloadPath = join(tmpdir(), `insrc-lambda-in-${randomUUID()}.json`);
+    const responsePath = join(tmpdir(), `insrc-lambda-out-${randomUUID()}.json`);
     await fs.writeFile(payloadPath, payloadStr, 'utf8');
 
     const argv = [
diff --git a/src/daemon/tools/builtins/cloud/gcp/functions.ts b/src/daemon/tools/builtins/cloud/gcp/functions.ts
index 7ca0722..a825b43 100644
--- a/src/daemon/tools/builtins/cloud/gcp/functions.ts
+++ b/src/daemon/tools/builtins/cloud/gcp/functions.ts
@@ -6,6 +6,7 @@
  * can pick the generation.
  */
 
+import { randomUUID } from 'node:crypto';
 import { promises as fs } from 'node:fs';
 import { tmpdir } from 'node:os';
 import { join } from 'node:path';
@@ -142,7 +143,7 @@ export const gcpFunctionsCallTool: Tool = {
     const payload = typeof input['dataString'] === 'string'
       ? (input['dataString'] as string)
       : JSON.stringify(input['data'] ?? {});
-    const dataPath = join(tmpdir(), `insrc-gcp-fn-${process.pid}-${Date.now()}.json`);
+    const dataPath = join(tmpdir(), `insrc-gcp-fn-${randomUUID()}.json`);
     await fs.writeFile(dataPath, payload, 'utf8');
 
     const argv = ['gcloud', 'functions', 'call', name, '--data-from-file', dataPath, '--format=json'];
diff --git a/src/daemon/tools/builtins/cloud/gcp/secrets.ts b/src/daemon/tools/builtins/cloud/gcp/secrets.ts
index 05e4a06..7dec86c 100644
--- a/src/daemon/tools/builtins/cloud/gcp/secrets.ts
+++ b/src/daemon/tools/builtins/cloud/gcp/secrets.ts
@@ -6,6 +6,7 @@
  * can forward it without parsing markdown.
  */
 
+import { randomUUID } from 'node:crypto';
 import { promises as fs } from 'node:fs';
 import { tmpdir } from 'node:os';
 import { join } from 'node:path';
@@ -147,8 +148,8 @@ export const gcpSecretsAddTool: Tool = {
     const value = str(input, 'value');
     if (!secret || value === undefined) { return fail('cloud_gcp_secrets_add', 'secret and value required'); }
     const flags = gcpFlags(input);
-    const tmpPath = join(tmpdir(), `insrc-gcp-secret-${process.pid}-${Date.now()}.bin`);
-    await fs.writeFile(tmpPath, value, 'utf8');
+    const tmpPath = join(tmpdir(), `insrc-gcp-secret-${randomUUID()}.bin`);
+    await fs.writeFile(tmpPath, value, { encoding: 'utf8', mode: 0o600 });
     try {
       const argv = ['gcloud', 'secrets', 'versions', 'add', secret, '--data-file', tmpPath, '--format=json', ...gcloudCommonArgv(flags)];
       const r = await runShell(argv, { timeoutMs: 30_000 });
diff --git a/src/daemon/tools/builtins/k8s/index.ts b/src/daemon/tools/builtins/k8s/index.ts
index e4ace82..ecdc371 100644
--- a/src/daemon/tools/builtins/k8s/index.ts
+++ b/src/daemon/tools/builtins/k8s/index.ts
@@ -8,6 +8,7 @@
  */
 
 import { spawn } from 'node:child_process';
+import { randomUUID } from 'node:crypto';
 import { promises as fs } from 'node:fs';
 import { tmpdir } from 'node:os';
 import { join } from 'node:path';
@@ -170,7 +171,7 @@ interface K8sApplyData {
 }
 
 async function writeManifestToTemp(yaml: string): Promise<string> {
-  const path = join(tmpdir(), `insrc-k8s-apply-${process.pid}-${Date.now()}.yaml`);
+  const path = join(tmpdir(), `insrc-k8s-apply-${randomUUID()}.yaml`);
   await fs.writeFile(path, yaml, 'utf8');
   return path;
 }
-- 
2.43.0


From 71738b93fd8b68fa2a79b49a74df982ad53f1c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:39:57 +0000
Subject: [PATCH 145/145] fix: refuse flags in place of a resource or name in
 k8s_delete

---
 src/daemon/tools/builtins/k8s/index.ts | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/daemon/tools/builtins/k8s/index.ts b/src/daemon/tools/builtins/k8s/index.ts
index ecdc371..15d8efc 100644
--- a/src/daemon/tools/builtins/k8s/index.ts
+++ b/src/daemon/tools/builtins/k8s/index.ts
@@ -361,6 +361,10 @@ export const k8sDeleteTool: Tool = {
   async execute(input: ToolInput): Promise<ToolResult> {
     const resource = str(input, 'resource');
     if (!resource) { return fail('k8s_delete', 'resource required'); }
+    // kubectl would take these for flags: `--all` as a name bypasses the confirmNamespace guard below
+    if (resource.startsWith('-') || str(input, 'name')?.startsWith('-')) {
+      return fail('k8s_delete', 'resource and name must not begin with "-"');
+    }
     const cluster = clusterFlags(input);
     const all = bool(input, 'all') === true;
     const name = str(input, 'name');
-- 
2.43.0

