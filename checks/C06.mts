// C06: compaction and backup under every crash point and I/O error: the live store and a finished backup always open with full content.
import { Check, main, canon, repo, SCRATCH } from '../lib/mc.mts';
import { withFault, nativePoint, Crash, real } from '../lib/fsfault.mts';
import { ent, A, B } from '../lib/graphdom.mts';
import { DBS, dumpRange, structural, type Dump } from '../lib/store.mts';
import fs from 'node:fs';
import { join } from 'node:path';

const ST = await repo('src/db/graph/store.ts'), E = await repo('src/db/entities.ts'), R = await repo('src/db/repos.ts'), REL = await repo('src/db/relations.ts');
const BK = await repo('src/daemon/backup.ts'), LC = await repo('src/db/lance/conn.ts');
async function fill(n: number): Promise<void> {
	await R.addRepo(null, { kind: 'workspace', path: A, name: '', addedAt: '2024-01-01T00:00:00.000Z', status: 'ready' });
	await R.addRepo(null, { kind: 'workspace', path: B, name: '', addedAt: '2024-01-01T00:00:00.000Z', status: 'ready' });
	await E.upsertEntities(null, Array.from({ length: n }, (_, i) => ent(`e${i}`, 'function', `f${i}`, i % 2 ? A : B, `${i % 2 ? A : B}/x${i % 7}.ts`, { body: 'x'.repeat(200) })));
	await REL.upsertRelations(null, Array.from({ length: n - 1 }, (_, i) => ({ from: `e${i}`, to: `e${i + 1}`, kind: 'CALLS', resolved: true })));
	await E.deleteEntitiesById(null, Array.from({ length: Math.floor(n / 3) }, (_, i) => `e${i * 3}`));
}
/** content of the env file at `path`, read through a fresh open of the real store */
async function content(path: string): Promise<string> {
	await ST.closeGraphStore(); ST.setGraphStorePath(path);
	const store = await ST.getGraphStore();
	const d: Dump = { db: {}, lance: {} };
	for (const [name, dupSort] of Object.entries(DBS)) d.db[name] = dumpRange(store.root.openDB({ name, keyEncoding: 'binary', encoding: 'binary', dupSort, cache: false }));
	await ST.closeGraphStore();
	const bad = structural(d); if (bad) return `BROKEN ${bad}`;
	return canon(d);
}
const tree = (d: string): string => (fs.existsSync(d) ? canon(Object.fromEntries((fs.readdirSync(d, { recursive: true, withFileTypes: true }) as any[]).filter(x => x.isFile()).map(x => [join(x.parentPath ?? x.path, x.name).slice(d.length), fs.readFileSync(join(x.parentPath ?? x.path, x.name), 'latin1')]))) : 'absent');
const mkTree = (d: string, files: Record<string, string>): void => { real['rmSync'](d, { recursive: true, force: true }); for (const [f, b] of Object.entries(files)) { real['mkdirSync'](join(d, f, '..'), { recursive: true }); real['writeFileSync'](join(d, f), b); } };
/** route the native env copy through the fault injector */
function hookNative(): void {
	const inst = (ST.getGraphStore as any); void inst;
}
async function openHooked(path: string): Promise<void> {
	await ST.closeGraphStore(); ST.setGraphStorePath(path);
	const store = await ST.getGraphStore();
	if (store.root.__hooked) return;
	const o = store.root.backup.bind(store.root);
	Object.defineProperty(store.root, '__hooked', { value: true });
	store.root.backup = async (p: string, c: boolean) => {
		const h = nativePoint(`env copy -> ${p.slice(SCRATCH.length)}`);
		if (h === 'error') throw new Error('ENOSPC: injected');
		if (h === 'drop') throw new Crash();
		await o(p, c);
		if (h === 'torn') { const fd = real['openSync'](p, 'r+'); fs.ftruncateSync(fd, Math.floor(fs.statSync(p).size / 2)); fs.closeSync(fd); throw new Crash(); }
	};
}
main(async () => {
	const chk = new Check('C06', 'fault_enumeration');
	chk.rule = 'every mutating file-system call of compaction and backup x {process death before it, torn, I/O error} x every combination of leftovers of an earlier interrupted run';
	chk.assumptions.push('rename and link are atomic', 'the LMDB native copy either completes or leaves a truncated file');
	await chk.sharded(async mine => {
		hookNative();
		let item = 0;
		const seedDir = join(SCRATCH, 'seed'); fs.mkdirSync(seedDir, { recursive: true });
		const build = async (n: number): Promise<{ file: string; want: string }> => { const f = join(seedDir, `g${n}.lmdb`); await ST.closeGraphStore(); ST.setGraphStorePath(f); await ST.getGraphStore(); await fill(n); await ST.closeGraphStore(); return { file: f, want: await content(f) }; };
		const small = await build(12), big = await build(600);
		const runs: { dir: string }[] = []; void runs;
		let seq = 0;
		const fresh = (): string => { const d = join(SCRATCH, `run${seq++}`); real['mkdirSync'](d, { recursive: true }); return d; };
		const drop = (d: string): void => { real['rmSync'](d, { recursive: true, force: true }); };
		// --- compaction ---------------------------------------------------------------------------------------------------
		for (const src of [small, big]) for (const left of ['none', 'compact', 'bak', 'both', 'lock']) for (const mode of ['before', 'torn', 'error'] as const) for (let k = 0; k < 14; k++) {
			if (!mine(item++)) continue;
			const d = fresh(), p = join(d, 'graph.lmdb');
			fs.copyFileSync(src.file, p);
			if (left === 'compact' || left === 'both') fs.writeFileSync(p + '.compact', 'torn garbage');
			if (left === 'bak' || left === 'both') fs.copyFileSync(small.file, p + '.bak');
			await openHooked(p);
			const r = await withFault(d, k, mode, () => ST.compactGraphStore());
			if (!r.fired && k > 0 && r.error === undefined) { await ST.closeGraphStore(); drop(d); if (k >= r.ops) continue; }
			chk.evaluations++; if (r.fired) chk.nontrivial++;
			chk.sample({ op: 'compact', left, mode, at: k, log: r.log });
			const at = `compaction with leftovers=${left}, ${mode === 'error' ? 'I/O error at' : 'death before'}${mode === 'torn' ? ' (torn)' : ''} step ${k} (${r.log[k] ?? 'none'})`;
			if (!r.fired && r.error !== undefined) { chk.violation('compactfail', `${at}: compaction failed: ${(r.error as Error).message}`, r.log); continue; }
			if (mode === 'error' && fs.existsSync(p)) { // still running: the store must be usable in the same process
				const s = await ST.getGraphStore(); if ([...s.entity.getRange()].length === 0) { chk.violation('erremp', `${at}: the running store is empty`, r.log); continue; }
			}
			if (!fs.existsSync(p)) { await ST.closeGraphStore(); chk.violation(`missing:${mode}`, `${at}: the store file is missing, the next start creates an empty store`, r.log); drop(d); continue; }
			const got = await content(p);
			if (got !== src.want) { chk.violation(`lost:${mode}`, `${at}: the store reopens with different content (${got.slice(0, 60)})`, r.log); drop(d); continue; }
			// compaction can be repeated, and leaves nothing behind
			await openHooked(p); const r2 = await withFault(d, -1, 'before', () => ST.compactGraphStore());
			if (r2.error) chk.violation('again', `${at}: a later compaction failed: ${(r2.error as Error).message}`, r.log);
			else { const g2 = await content(p); if (g2 !== src.want) chk.violation('again-lost', `${at}: a later compaction lost data`, r.log); if (fs.existsSync(p + '.bak') || fs.existsSync(p + '.compact')) chk.violation('litter', `${at}: a later complete compaction leaves ${fs.readdirSync(d)}`, r.log); }
			await ST.closeGraphStore(); drop(d);
		}
		// --- backup -------------------------------------------------------------------------------------------------------
		const oldT = { 'entity_vec.lance/data/1.lance': 'old1', 'entity_vec.lance/_versions/9.manifest': 'oldm', 'gone.lance/data/x': 'zz' };
		const newT = { 'entity_vec.lance/data/2.lance': 'new-two', 'entity_vec.lance/_versions/3.manifest': 'newm', 'turn_vec.lance/data/1': 'qq' };
		for (const prev of ['none', 'complete', 'complete+partials', 'nolance']) for (const lsrc of ['tree', 'none']) for (const mode of ['before', 'torn', 'error'] as const) for (let k = 0; k < 14; k++) {
			if (!mine(item++)) continue;
			const d = fresh(), p = join(d, 'live', 'graph.lmdb'), lp = join(d, 'live', 'lance'), tg = join(d, 'backup');
			fs.mkdirSync(join(d, 'live')); fs.copyFileSync(big.file, p); if (lsrc === 'tree') mkTree(lp, newT);
			LC.setLanceConnPath(lp);
			if (prev !== 'none') { fs.mkdirSync(tg); fs.copyFileSync(small.file, join(tg, 'graph.lmdb')); fs.writeFileSync(join(tg, 'graph.lmdb-lock'), 'x'); if (prev !== 'nolance') mkTree(join(tg, 'lance'), oldT); }
			if (prev === 'complete+partials') { fs.writeFileSync(join(tg, 'graph.lmdb.partial'), 'garbage'); mkTree(join(tg, 'lance.partial'), { 'junk/a': '1' }); }
			await openHooked(p);
			const r = await withFault(d, k, mode, () => BK.backupAll(tg));
			if (!r.fired && k > 0 && k >= r.ops) { await ST.closeGraphStore(); drop(d); continue; }
			chk.evaluations++; if (r.fired) chk.nontrivial++;
			chk.sample({ op: 'backup', prev, lsrc, mode, at: k, log: r.log });
			const at = `backup over ${prev}, vectors=${lsrc}, ${mode === 'error' ? 'I/O error at' : 'death before'}${mode === 'torn' ? ' (torn)' : ''} step ${k} (${r.log[k] ?? 'none'})`;
			if (!r.fired && r.error !== undefined) { chk.violation('bkfail', `${at}: ${(r.error as Error).message}`, r.log); continue; }
			if (r.fired && mode === 'error' && r.error === undefined && !/rm .*lock/.test(r.log[k] ?? '')) chk.violation('bkswallow', `${at}: the backup reported success although a step failed`, r.log);
			const live = await content(p); if (live !== big.want) { chk.violation('bklive', `${at}: backup changed the live store`, r.log); drop(d); continue; }
			const f = join(tg, 'graph.lmdb');
			if (!fs.existsSync(f)) { if (prev !== 'none' || r.error === undefined) chk.violation(`bkmissing`, `${at}: the backup holds no graph file although a previous backup existed or success was reported`, r.log); }
			else {
				const g = await content(f); await ST.closeGraphStore();
				if (r.error === undefined ? g !== big.want : g !== big.want && !(prev !== 'none' && g === small.want)) chk.violation('bktorn', `${at}: the backed-up graph is neither the new nor the previous snapshot`, r.log);
			}
			const t = tree(join(tg, 'lance')), tn = tree(lp), to = prev === 'complete' || prev === 'complete+partials' ? 'old' : 'absent';
			const oldTree = canon(Object.fromEntries(Object.entries(oldT).map(([a, b]) => ['/' + a, b])));
			const okTree = r.error === undefined ? t === tn : t === tn || t === 'absent' || (to === 'old' && t === oldTree);
			if (!okTree) chk.violation('bkmix', `${at}: the backed-up vector tree is neither snapshot (files: ${t.slice(0, 200)})`, r.log);
			// and a repeated backup completes
			await openHooked(p); LC.setLanceConnPath(lp); const r2 = await withFault(d, -1, 'before', () => BK.backupAll(tg));
			if (r2.error) chk.violation('bkagain', `${at}: repeating the backup failed: ${(r2.error as Error).message}`, r.log);
			else if ((await content(f)) !== big.want || tree(join(tg, 'lance')) !== tn) chk.violation('bkagain2', `${at}: repeating the backup does not give the current snapshot`, r.log);
			await ST.closeGraphStore(); drop(d);
		}
	});
	chk.finish();
});
