// C02: every history of source-tree changes, event deliveries and restarts leaves the graph that the tree denotes.
// The oracle knows the tree as structured definitions (not text) and links them itself; it shares nothing with the indexer.
import { Check, main, THOROUGH, repo, SCRATCH, sequences, canon, realSetTimeout } from '../lib/mc.mts';
import { openCtx, dump, restore, structural, type Ctx, type Dump } from '../lib/store.mts';
import { mkdirSync, writeFileSync, rmSync, utimesSync, existsSync } from 'node:fs';
import { dirname } from 'node:path';

interface Def { k: 'class' | 'function'; n: string; calls?: string[]; ext?: string; exp?: boolean }
interface Src { imp: [string, string[]][]; defs: Def[] }
type Tree = Record<string, number>; // file -> variant, -1 absent
interface Lang { ext: string; gen(s: Src): string; hiding: boolean; calls: boolean }
const TS: Lang = { ext: '.ts', hiding: true, calls: true, gen: s => s.imp.map(([f, ns]) => `import { ${ns.join(', ')} } from './${f}.js';\n`).join('') + s.defs.map(d => `${d.exp === false ? '' : 'export '}${d.k} ${d.n}${d.k === 'class' ? `${d.ext ? ` extends ${d.ext}` : ''} {}` : `() { ${(d.calls ?? []).map(c => `${c}();`).join(' ')} }`}\n`).join('') };
const PY: Lang = { ext: '.py', hiding: false, calls: false, gen: s => s.imp.map(([f, ns]) => `from .${f} import ${ns.join(', ')}\n`).join('') + s.defs.map(d => d.k === 'class' ? `class ${d.n}${d.ext ? `(${d.ext})` : ''}:\n    pass\n\n` : `def ${d.n}():\n    ${(d.calls ?? []).map(c => `${c}()`).join('; ') || 'pass'}\n\n`).join('') };
const V: Record<string, Src[]> = {
	a: [
		{ imp: [['b', ['f', 'B']], ['c', ['g']]], defs: [{ k: 'function', n: 'main', calls: ['f', 'g', 'own'] }, { k: 'function', n: 'own' }, { k: 'class', n: 'A', ext: 'B' }] },
		{ imp: [['b', ['f']]], defs: [{ k: 'function', n: 'main', calls: ['f', 'g'] }, { k: 'class', n: 'A' }] },
	],
	b: [
		{ imp: [], defs: [{ k: 'class', n: 'B' }, { k: 'function', n: 'f' }] },
		{ imp: [['a', ['main']]], defs: [{ k: 'function', n: 'f', calls: ['h', 'main'] }, { k: 'function', n: 'h' }] },
		{ imp: [], defs: [{ k: 'function', n: 'f', exp: false }, { k: 'class', n: 'B', ext: 'C' }, { k: 'class', n: 'C' }] },
	],
	c: [
		{ imp: [['a', ['main', 'A']]], defs: [{ k: 'function', n: 'g', calls: ['main'] }, { k: 'class', n: 'G', ext: 'A' }] },
		{ imp: [], defs: [{ k: 'function', n: 'g' }, { k: 'function', n: 'f' }] },
	],
};
const files = Object.keys(V);

/** what the tree denotes: entities, certain edges, and edges that are legitimate but not certain (ambiguous names) */
function denote(t: Tree, L: Lang): { ents: Set<string>; must: Set<string>; may: Set<string> } {
	const ents = new Set<string>(), must = new Set<string>(), may = new Set<string>();
	const here = files.filter(f => t[f]! >= 0); const src = (f: string): Src => V[f]![t[f]!]!;
	for (const f of here) {
		const s = src(f); ents.add(`${f}`);
		const imported = s.imp.map(i => i[0]).filter(x => here.includes(x));
		for (const i of imported) must.add(`${f} IMPORTS ${i}`);
		for (const d of s.defs) {
			ents.add(`${f}.${d.n}:${d.k}`); must.add(`${f} DEFINES ${f}.${d.n}`);
			const link = (kind: string, name: string, kinds: string[]): void => {
				const local = s.defs.filter(x => x.n === name && x !== d && kinds.includes(x.k));
				const cand = local.length ? local.map(() => `${f}.${name}`) : imported.flatMap(i => src(i).defs.filter(x => x.n === name && kinds.includes(x.k) && (kind !== 'CALLS' || !L.hiding || x.exp !== false)).map(() => `${i}.${name}`));
				for (const c of cand) (cand.length === 1 ? must : may).add(`${f}.${d.n} ${kind} ${c}`);
			};
			if (L.calls) for (const c of d.calls ?? []) link('CALLS', c, ['function', 'class']);
			if (d.ext) link('INHERITS', d.ext, ['class']);
		}
	}
	return { ents, must, may };
}

main(async () => {
	const chk = new Check('C02', 'model_checking');
	chk.assumptions.push('TypeScript and Python sources of three files with imports (including a cycle), calls, inheritance, moved and hidden definitions', 'file events reach the indexer in order (watcher back end not modelled); no embedding model is reachable');
	await chk.sharded(async mine => {
		const c = await openCtx(); const I = await repo('src/indexer/index.ts'); const Q = await repo('src/daemon/queue.ts'); const EG = await repo('src/db/graph/edges.ts');
		// count store transactions in flight, to know when background passes have finished
		let inflight = 0, wrote = 0;
		for (const m of ['childTransaction', 'transaction']) { const o = c.root[m].bind(c.root); c.root[m] = async (...a: any[]) => { inflight++; wrote++; try { return await o(...a); } finally { inflight--; } }; }
		const timers = new Map<any, () => void>(); const SETTLE = 777_777;
		const oS = globalThis.setTimeout, oC = globalThis.clearTimeout;
		(globalThis as any).setTimeout = (f: any, ms: number, ...a: any[]) => { if (ms !== SETTLE) return oS(f, ms, ...a); const h: any = { unref() { return h; }, ref() { return h; } }; timers.set(h, f); return h; };
		(globalThis as any).clearTimeout = (h: any) => { if (timers.has(h)) timers.delete(h); else oC(h); };
		let slow = 40; // extra idle time until all lazily imported modules are loaded
		const idle = async (): Promise<void> => { let quiet = 0, last = -1; const t0 = performance.now(); while (quiet < 10 || performance.now() - t0 < slow) { await new Promise(r => setImmediate(r)); if (inflight > 0) { await new Promise(r => realSetTimeout(r as any, 1)); quiet = 0; continue; } if (wrote !== last) { last = wrote; quiet = 0; } quiet++; } };
		const root = `${SCRATCH}/w/repo`, nested = `${root}/nested`, sibling = `${SCRATCH}/w/repository`, outside = `${SCRATCH}/w/other`;
		rmSync(`${SCRATCH}/w`, { recursive: true, force: true });
		let ev: any[] = [];
		class Svc {
			q: any; s: any; handler: any; open = false; wake: () => void = () => {};
			/** the real queue and service; the worker takes a job but only proceeds while `open` (so events can pile up behind it) */
			static async start(repos: any[]): Promise<Svc> {
				const v = new Svc(); v.q = new Q.IndexQueue();
				v.s = new I.IndexerService(null, v.q, { onEvents: (h: any) => { v.handler = h; }, addRepo: async () => {}, removeRepo: async () => {}, addConfigDir: async () => {}, close: async () => {} }, undefined, SETTLE);
				void v.q.start(async (j: any) => { while (!v.open) await new Promise<void>(r => { v.wake = r; }); await v.s.processJob(j); });
				await v.s.start(repos); return v;
			}
			async drain(): Promise<void> {
				const q = this.q; this.open = true; this.wake(); await new Promise(r => setImmediate(r));
				for (let i = 0; q.depth > 0 || q.isProcessing; i++) { await new Promise(r => setImmediate(r)); if (i > 50) await new Promise(r => realSetTimeout(r as any, 1)); }
				this.open = false;
			}
			async settle(): Promise<void> { await this.drain(); for (let i = 0; i < 4 && timers.size; i++) { const fs = [...timers.values()]; timers.clear(); fs.forEach(f => f()); await idle(); await this.drain(); } }
		}
		const rows = async (): Promise<any[]> => await c.R.listRepos(null);
		let L = TS, mt = 0;
		const P = (f: string, d = root): string => `${d}/${f}${L.ext}`;
		const put = (p: string, text: string): void => { mkdirSync(dirname(p), { recursive: true }); writeFileSync(p, text); const t = Date.now() / 1000 + ++mt; utimesSync(p, t, t); };
		const apply = (t: Tree, f: string, v: number): any => { const p = P(f), old = t[f]!; t[f] = v; if (v < 0) { rmSync(p, { force: true }); return { type: 'delete', path: p }; } put(p, L.gen(V[f]![v]!)); return { type: old < 0 ? 'create' : 'update', path: p }; };
		const layTree = (t: Tree): void => { rmSync(`${SCRATCH}/w`, { recursive: true, force: true }); mkdirSync(root, { recursive: true }); for (const f of files) if (t[f]! >= 0) put(P(f), L.gen(V[f]![t[f]!]!)); };
		// the graph, read back through the public API
		const observe = async (d = root): Promise<{ ents: Map<string, any>; edges: Set<string>; dup: string | null }> => {
			const ents = new Map<string, any>(), edges = new Set<string>(), byId = new Map<string, string>(); let dup: string | null = null;
			const list = (await c.E.listEntitiesForRepo(null, d)).filter((e: any) => e.kind !== 'repo');
			const nm = (e: any): string => { const f = e.file.slice(d.length + 1).replace(/\.(ts|py)$/, ''); return e.kind === 'file' ? f : `${f}.${e.name}`; };
			for (const e of list) { const k = e.kind === 'file' ? nm(e) : `${nm(e)}:${e.kind}`; if (e.kind === 'variable') continue; if (ents.has(k)) dup = k; ents.set(k, e); byId.set(e.id, nm(e)); }
			for (const e of list) { const u = await c.E.entityU64ForId(e.id); for (const k of ['DEFINES', 'IMPORTS', 'CALLS', 'INHERITS', 'IMPLEMENTS']) for (const [, id] of await c.E.entityIdsByU64s(await EG.outNeighbors(u, { kindFilter: [k] }))) edges.add(`${nm(e)} ${k} ${byId.get(id) ?? `outside:${id}`}`); }
			return { ents, edges, dup };
		};
		const compare = async (t: Tree): Promise<string | null> => {
			const want = denote(t, L); const g = await observe();
			if (g.dup) return `entity ${g.dup} is stored twice`;
			for (const e of want.ents) if (!g.ents.has(e)) return `definition ${e} of the tree is missing`;
			for (const [e, r] of g.ents) { if (!want.ents.has(e)) return `${e} is in the graph but not in the tree`; if (r.repo !== root) return `${e} belongs to ${r.repo}`; }
			for (const e of want.must) if (!g.edges.has(e)) return `reference "${e}" is missing`;
			for (const e of g.edges) if (!want.must.has(e) && !want.may.has(e)) return `reference "${e}" does not exist in the tree`;
			for (const f of files) if (t[f]! >= 0) { const text = L.gen(V[f]![t[f]!]!).split('\n'); for (const d of V[f]![t[f]!]!.defs) { const r = g.ents.get(`${f}.${d.n}:${d.k}`); const ln = text.findIndex(x => new RegExp(`\\b${d.k === 'function' ? '(function|def)' : 'class'} ${d.n}\\b`).test(x)) + 1; if (r.startLine !== ln || !String(r.body).includes(d.n)) return `${f}.${d.n} is recorded at line ${r.startLine}, it is at ${ln}`; } }
			return structural(dump(c));
		};
		const stable = (d: Dump): string => canon([...d.db['out_edge']!, '|', ...d.db['in_edge']!, '|', ...d.db['name_index']!, '|', ...d.db['entity_id_by_string']!, d.db['unresolved']!.map(x => x[0])]);
		let item = 0;
		for (L of [TS, PY]) {
			// clean starting points: nothing indexed; fully indexed tree
			restore(c, { db: { ...dump(c).db, ...Object.fromEntries(['repo', 'entity', 'entity_id_by_string', 'entity_string_by_u64', 'name_index', 'out_edge', 'in_edge', 'unresolved', 'unresolved_by_file'].map(k => [k, k === 'repo' ? dump(c).db['repo']!.filter(([key]) => key.charCodeAt(0) === 255) : []])) }, lance: {} });
			await c.R.addRepo(null, { kind: 'workspace', path: root, name: 'r', addedAt: new Date().toISOString(), status: 'pending' });
			const empty = dump(c); const absent: Tree = { a: -1, b: -1, c: -1 };
			const t0: Tree = { a: 0, b: 0, c: 0 };
			layTree(t0); let s = await Svc.start(await rows()); await s.settle();
			const bad0 = await compare(t0); if (bad0) chk.violation(`init:${L.ext}`, `${L.ext}: first full index: ${bad0}`, t0);
			const st = (await rows()).find(r => r.path === root); if (st?.status !== 'ready' || !st.lastIndexed) chk.violation('status', `after a full index the repo is ${canon(st)}`, {});
			const indexed = dump(c); slow = 0;
			const reset = async (d: Dump, t: Tree): Promise<Svc> => { timers.clear(); layTree(t); restore(c, d); const v = await Svc.start([{ ...(await rows()).find(r => r.path === root), status: 'ready', lastIndexed: '' }]); await v.drain(); return v; };
			const changes: [string, number][] = files.flatMap(f => V[f]!.map((_, v) => [f, v] as [string, number]).concat([[f, -1]]));
			const depth = THOROUGH ? 4 : 3;
			// 1. live changes: every sequence, every placement of event delivery and of settle passes between them
			for (const [start, tree] of [[indexed, t0], [empty, absent]] as const) for (let n = 1; n <= (L === PY ? depth - 1 : depth); n++) for (const seq of sequences(changes.length, n)) {
				const cur = { ...tree }; let ok = true; for (const i of seq) { const [f, v] = changes[i]!; if (cur[f] === v && v < 0) ok = false; cur[f] = v; } if (!ok) continue;
				for (const modes of sequences(n === 1 ? 1 : 3, Math.max(1, n - 1))) { // after each change: 0 deliver, 1 hold back, 2 deliver and settle
					if (n >= 3 && !THOROUGH && modes.filter(m => m === 2).length === 1) continue;
					if (!mine(item++)) continue;
					s = await reset(start, tree); const t = { ...tree }; const log: string[] = [];
					for (const [j, i] of seq.entries()) {
						const [f, v] = changes[i]!; ev.push(apply(t, f, v)); log.push(`${f}=${v}`);
						if (j < n - 1 && modes[j] === 1) continue;
						s.handler(ev); ev = []; log.push('deliver'); if (j < n - 1) await (modes[j] === 2 ? (log.push('settle'), s.settle()) : s.drain());
					}
					await s.settle(); chk.transitions += n; chk.states++;
					const bad = await compare(t);
					if (bad) chk.violation(`live:${L.ext}:${bad}`, `${L.ext}: start ${canon(tree)}; ${log.join(', ')}; settled: ${bad}`, { log, t });
					if (chk.states % 500 === 1) chk.sample({ lang: L.ext, log });
					// a full index of what is already indexed changes nothing
					if (n <= 2) { const b = stable(dump(c)); s.q.enqueue({ kind: 'full', repoPath: root }); await s.settle(); const bad2 = await compare(t); if (bad2) chk.violation(`full:${L.ext}`, `${log.join(', ')}; then a full index: ${bad2}`, { log }); if (![...denote(t, L).may].length && stable(dump(c)) !== b) chk.violation(`fullnoop:${L.ext}`, `${log.join(', ')}: a full index of an up-to-date repo changed the graph`, { log }); }
				}
			}
			// 2. changes while the daemon is down: restart (delta) or explicit full index or interrupted first index
			for (let n = 1; n <= 2; n++) for (const seq of sequences(changes.length, n)) for (const how of ['ready', 'full', 'pending', 'error', 'indexing', 'full-after-restart']) {
				if (!mine(item++)) continue;
				s = await reset(indexed, t0); const t = { ...t0 }; for (const i of seq) apply(t, ...changes[i]!);
				const row = (await rows()).find(r => r.path === root);
				if (how === 'full') s.q.enqueue({ kind: 'full', repoPath: root });
				else s = await Svc.start([how === 'ready' || how === 'full-after-restart' ? row : { ...row, status: how, lastIndexed: undefined }]);
				if (how === 'full-after-restart') s.q.enqueue({ kind: 'full', repoPath: root });
				await s.settle(); chk.transitions += n; chk.states++;
				const bad = await compare(t); if (bad) chk.violation(`offline:${how}:${L.ext}:${bad}`, `${L.ext}: offline ${seq.map(i => changes[i]!.join('='))}, then ${how}: ${bad}`, { seq, how });
				const after = (await rows()).find(r => r.path === root); if (after.status !== 'ready' || (how !== 'ready' && !after.lastIndexed)) chk.violation(`status:${how}`, `after ${how} the repo is ${canon(after)}`, {});
			}
			// 3. a full index cut short at every store transaction, then a restart
			for (const [start, tree] of [[empty, t0], [indexed, { a: 1, b: 1, c: 1 }]] as const) for (let at = 0, more = true; more && at < 60; at++) {
				if (!mine(item++)) { continue; }
				s = await reset(start, tree); s.q.enqueue({ kind: 'full', repoPath: root });
				let k = 0; const o = c.root.childTransaction; c.root.childTransaction = (...a: any[]) => (k++ >= at ? new Promise(() => {}) : o(...a));
				const p = s.s.processJob({ kind: 'full', repoPath: root }); await Promise.race([p, (async () => { let q = 0, l = -1; while (q < 12) { await new Promise(r => setImmediate(r)); if (inflight > 0 || wrote !== l) { q = 0; l = wrote; if (inflight > 0) await new Promise(r => realSetTimeout(r as any, 1)); } else q++; if (k > at) break; } })()]);
				c.root.childTransaction = o; if (k <= at) more = false;
				while (inflight > 0) await new Promise(r => realSetTimeout(r as any, 1));
				timers.clear(); s = await Svc.start([(await rows()).find(r => r.path === root)]); await s.settle(); chk.states++;
				const bad = await compare(tree); if (bad) chk.violation(`crash:${L.ext}:${bad}`, `${L.ext}: full index died at its transaction ${at}, restart: ${bad}`, { at });
			}
			// 4. events outside, in siblings, nested repos, ignored and generated files
			if (mine(item++)) {
				s = await reset(indexed, t0); await c.R.addRepo(null, { kind: 'workspace', path: nested, name: 'n', addedAt: '', status: 'ready' });
				mkdirSync(nested, { recursive: true }); s = await Svc.start([(await rows()).find(r => r.path === root), { ...(await rows()).find(r => r.path === nested), lastIndexed: '' }].map(r => ({ ...r, status: 'ready' }))); await s.drain();
				const x = 'def zz():\n    pass\n', y = 'export function zz() {}\n', txt = L === TS ? y : x;
				for (const p of [P('z', sibling), P('z', outside), `${root}/lib.min.js`, `${root}/v.bundle.js`, `${root}/notes.xyz`]) put(p, txt);
				put(P('z', nested), txt);
				s.handler([P('z', sibling), P('z', outside), P('z', nested), `${root}/lib.min.js`, `${root}/v.bundle.js`, `${root}/notes.xyz`].map(path => ({ type: 'create', path }))); await s.settle();
				const bad = await compare(t0); if (bad) chk.violation(`scope:${L.ext}`, `files outside the repo, of a nested repo, generated or unknown: ${bad}`, {});
				const nn = await observe(nested); chk.states++;
				if (canon([...nn.ents.keys()].sort()) !== '["z","z.zz:function"]') chk.violation(`nested:${L.ext}`, `nested repo holds ${[...nn.ents.keys()]}`, {});
				await s.s.removeRepo(nested); s.handler([{ type: 'delete', path: P('z', nested) }]); await s.settle();
				// ignored directories and generated files are not indexed by a full index either
				for (const p of [`${root}/node_modules/m/i${L.ext}`, `${root}/dist/q${L.ext}`, `${root}/.insrc/k${L.ext}`]) put(p, txt);
				rmSync(nested, { recursive: true, force: true }); s.q.enqueue({ kind: 'full', repoPath: root }); await s.settle();
				const bad2 = await compare(t0); if (bad2) chk.violation(`ignored:${L.ext}`, `full index with ignored directories: ${bad2}`, {});
			}
		}
	});
	chk.traces = chk.states;
	chk.finish();
});
