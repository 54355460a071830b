// C11: the index queue over every operation sequence (enqueue of each job kind, job end, job failure, stop), and the watcher in front of it.
import { Check, main, THOROUGH, repo, SCRATCH, canon, sequences, subsets, product } from '../lib/mc.mts';
import { subs } from '../lib/parcel-stub.mjs';
import { join } from 'node:path';
import { mkdirSync, rmSync, writeFileSync } from 'node:fs';

const A = '/r/a', B = '/r/b', g = { kind: 'global' }, pa = { kind: 'project', repoPath: A }, pb = { kind: 'project', repoPath: B };
const JOBS: any[] = [
	{ kind: 'full', repoPath: A }, { kind: 'full', repoPath: B }, { kind: 'reembed', repoPath: A },
	...['create', 'update', 'delete'].map(event => ({ kind: 'file', filePath: `${A}/x.ts`, event })), { kind: 'file', filePath: `${A}/y.ts`, event: 'update' },
	{ kind: 'config-full', scope: g }, { kind: 'config-full', scope: pa }, { kind: 'config-reindex', scope: g }, { kind: 'config-reindex', scope: pa }, { kind: 'config-reindex', scope: pb },
	{ kind: 'config-file', filePath: `${A}/x.ts`, scope: pa, event: 'update' }, { kind: 'config-file', filePath: `${A}/x.ts`, scope: pa, event: 'delete' },
	{ kind: 'doc-summarise-repo', repoPath: A }, { kind: 'doc-summarise-repo', repoPath: B }, { kind: 'doc-summarise-entity', entityId: 'e1' }, { kind: 'doc-summarise-entity', entityId: 'e2' },
];
const NAME = (j: any): string => `${j.kind}:${j.repoPath ?? j.filePath ?? j.entityId ?? (j.scope.repoPath ?? 'global')}${j.event ? `:${j.event}` : ''}`;
/** the documented rules: one slot per key; file events replace in place, a reindex of a scope makes its pending full pass redundant, everything else is first come first served */
function push(q: any[], j: any): any[] {
	const key = (x: any): string => x.kind.startsWith('config-') && x.kind !== 'config-file' ? (x.scope.repoPath ?? '') : x.repoPath ?? x.filePath ?? x.entityId;
	const same = (k: string): number => q.findIndex(x => x.kind === k && key(x) === key(j));
	switch (j.kind) {
		case 'reembed': return [...q, j];
		case 'file': case 'config-file': { const i = same(j.kind); return i < 0 ? [...q, j] : q.map((x, k) => (k === i ? j : x)); }
		case 'config-full': return same('config-full') >= 0 || same('config-reindex') >= 0 ? q : [...q, j];
		case 'config-reindex': { const r = q.filter(x => !(x.kind === 'config-full' && key(x) === key(j))); return same('config-reindex') >= 0 ? r : [...r, j]; }
		default: return same(j.kind) >= 0 ? q : [...q, j];
	}
}
interface M { q: any[]; busy: any; stopped: boolean; started: boolean; n: number }
type Op = ['enq', number] | ['done'] | ['fail'] | ['throw'] | ['stop'] | ['start'];
const OPS: Op[] = [...JOBS.map((_, i) => ['enq', i] as Op), ['done'], ['fail'], ['stop'], ['start']];
const tick = async (): Promise<void> => { for (let i = 0; i < 12; i++) await null; };

main(async () => {
	const chk = new Check('C11', 'model_checking');
	await chk.sharded(async mine => {
		const { IndexQueue } = await repo('src/daemon/queue.ts');
		const bad = (key: string, what: string, h: unknown): void => chk.violation(key, what, h);
		const step = (m: M, op: Op): M | undefined => {
			const r: M = { ...m };
			if (op[0] === 'start') { if (m.started) return undefined; r.started = true; }
			else if (op[0] === 'enq') { if (!m.stopped) r.q = push(m.q, JOBS[op[1]]); }
			else if (op[0] === 'done' || op[0] === 'fail') { if (m.busy === undefined) return undefined; r.busy = undefined; }
			else if (op[0] === 'stop') { if (m.stopped || !m.started) return undefined; r.stopped = true; }
			if (r.started && !r.stopped && r.busy === undefined && r.q.length) { r.busy = r.q[0]; r.q = r.q.slice(1); }
			return r;
		};
		// breadth first over model states; every transition is executed on a fresh queue by replaying its path
		const depth = THOROUGH ? 6 : 5;
		let frontier: { m: M; path: Op[] }[] = [{ m: { q: [], busy: undefined, stopped: false, started: false, n: 0 }, path: [] }];
		const seen = new Set<string>([canon(frontier[0]!.m)]); let item = 0;
		const run = async (path: Op[]): Promise<void> => {
			const q = new IndexQueue(); const started: any[] = []; let end: { res(): void; rej(e: Error): void } | undefined, over = false, concurrent = 0;
			let m: M = { q: [], busy: undefined, stopped: false, started: false, n: 0 }; const expect: any[] = [];
			const h = path.map(o => (o[0] === 'enq' ? NAME(JOBS[o[1]]) : o[0]));
			for (const [k, op] of path.entries()) {
				const prevBusy = m.busy; m = step(m, op)!; if (m.busy !== undefined && (m.busy !== prevBusy || op[0] === 'done' || op[0] === 'fail')) expect.push(m.busy);
				if (op[0] === 'start') { void q.start((job: any) => { if (op.length && end) concurrent++; started.push(job); return new Promise<void>((res, rej) => { end = { res, rej }; }); }).then(() => { over = true; }, (e: Error) => bad('loop', `the drain loop failed: ${e.message}: ${h.join('; ')}`, h)); }
				else if (op[0] === 'enq') q.enqueue(JOBS[op[1]]);
				else if (op[0] === 'stop') q.stop();
				else { const e = end!; end = undefined; if (op[0] === 'done') e.res(); else e.rej(new Error('job failed')); }
				if (k < path.length - 1 && (k + path.length) % 2) continue; // operations also arrive without a pause in between
				await tick();
			}
			await tick();
			if (concurrent) bad('concurrent', `two jobs ran at the same time: ${h.join('; ')}`, h);
			if (canon(started) !== canon(expect)) bad(`jobs:${path[path.length - 1]![0]}`, `${h.join('; ')}: ran ${started.map(NAME)}, expected ${expect.map(NAME)}`, h);
			else if (q.depth !== m.q.length) bad('depth', `${h.join('; ')}: ${q.depth} jobs are pending, expected ${m.q.map(NAME)}`, h);
			else if (q.isProcessing !== (m.busy !== undefined)) bad('busy', `${h.join('; ')}: isProcessing is ${q.isProcessing}`, h);
			else if (over !== (m.stopped && m.busy === undefined)) bad('stop', `${h.join('; ')}: the loop has ${over ? '' : 'not '}ended`, h);
			else if (!m.stopped) { // drain: everything pending runs, in order, nothing else
				if (!m.started) { void q.start((job: any) => { started.push(job); return new Promise<void>((res, rej) => { end = { res, rej }; }); }); expect.push(...m.q); } else expect.push(...m.q);
				await tick(); for (let i = 0; end && i < 20; i++) { const e = end; end = undefined; if (i % 2) e.rej(new Error('x')); else e.res(); await tick(); }
				if (canon(started) !== canon(expect)) bad('drain', `${h.join('; ')}: drained ${started.map(NAME)}, expected ${expect.map(NAME)}`, h);
				q.stop(); await tick();
			}
		};
		for (let d = 0; d < depth; d++) {
			const next: typeof frontier = [];
			for (const { m, path } of frontier) for (const op of OPS) {
				const r = step(m, op); if (r === undefined) continue;
				const k = canon([r.q.map(NAME), r.busy && NAME(r.busy), r.stopped, r.started]); const fresh = !seen.has(k); if (fresh) { seen.add(k); next.push({ m: r, path: [...path, op] }); }
				if (!mine(item++)) continue;
				if (fresh) chk.states++; chk.transitions++; await run([...path, op]);
				if (chk.transitions % 20000 === 1) chk.sample([...path, op].map(o => (o[0] === 'enq' ? NAME(JOBS[o[1]]) : o[0])), 3);
			}
			frontier = next;
		}
		if (mine(0)) chk.extra['queue_model_states'] = seen.size;
		// ---- file system events through the watcher and the indexer's handler into the queue: all interleavings of delivery, debounce and job completion
		const { Watcher } = await repo('src/indexer/watcher.ts'), { IndexerService: Indexer } = await repo('src/indexer/index.ts');
		const root = join(SCRATCH, 'wr'); for (const d of ['one', 'two']) { mkdirSync(join(root, d), { recursive: true }); writeFileSync(join(root, d, 'a.ts'), ''); }
		const R1 = join(root, 'one'), R2 = join(root, 'two');
		const EV: [number, string, string][] = [[0, 'create', 'a.ts'], [0, 'update', 'a.ts'], [0, 'delete', 'a.ts'], [1, 'update', 'a.ts'], [0, 'update', 'b.py'], [0, 'update', 'pic.png'], [1, 'delete', 'c.TS']];
		type W = ['ev', number] | ['ev2', number, number] | ['time', number] | ['done'];
		const WOPS: W[] = [...EV.map((_, i) => ['ev', i] as W), ['ev2', 1, 2], ['ev2', 2, 0], ['time', 100], ['time', 200], ['done']];
		const wdepth = THOROUGH ? 5 : 4; const real = { setTimeout: globalThis.setTimeout, clearTimeout: globalThis.clearTimeout };
		let timers: { at: number; fn: () => void; id: number }[] = [], now = 0, tid = 0;
		const go = async (seq: W[]): Promise<void> => {
			chk.states++; chk.transitions += seq.length; timers = []; now = 0; subs.length = 0;
			const q = new IndexQueue(); const w = new Watcher(); const ix = new Indexer(null, q, w);
			await ix.start([]); await ix.addRepo(R1); await ix.addRepo(R2); await ix.addRepo(R1);
			const h = seq.map(o => o[0] === 'ev' ? EV[o[1]!]!.join(' ') : o[0] === 'ev2' ? `${EV[o[1]]!.join(' ')} + ${EV[o[2]]!.join(' ')}` : o.join(' '));
			if (subs.filter((s: any) => s.open).length !== 2) bad('watch', `watching ${subs.map((s: any) => s.path)} after adding two repositories`, h);
			const ran: any[] = []; let end: (() => void) | undefined; void q.start((j: any) => { ran.push(j); return new Promise<void>(r => { end = r; }); });
			(globalThis as any).setTimeout = (fn: () => void, ms: number) => { timers.push({ at: now + ms, fn, id: ++tid }); return tid; }; (globalThis as any).clearTimeout = (id: number) => { timers = timers.filter(t => t.id !== id); };
			const advance = (ms: number): void => { const t = now + ms; for (;;) { const n = timers.filter(x => x.at <= t).sort((a, b) => a.at - b.at)[0]; if (!n) break; now = n.at; timers = timers.filter(x => x !== n); n.fn(); } now = t; };
			const last = new Map<string, string>(), count = new Map<string, number>();
			const ev = (is: number[]): void => { const byRepo = new Map<number, any[]>(); for (const i of is) { const [r, type, f] = EV[i]!; const p = join(r ? R2 : R1, f); byRepo.set(r, [...(byRepo.get(r) ?? []), { type, path: p }]); if (!f.endsWith('.png')) { last.set(p, type); count.set(p, (count.get(p) ?? 0) + 1); } } for (const [r, es] of byRepo) subs.find((s: any) => s.path === (r ? R2 : R1) && s.open)!.cb(null, es); };
			for (const op of seq) { if (op[0] === 'ev') ev([op[1]!]); else if (op[0] === 'ev2') ev([op[1], op[2]]); else if (op[0] === 'time') advance(op[1]); else { const e = end; end = undefined; e?.(); } await tick(); }
			advance(1000); await tick(); for (let i = 0; end && i < 40; i++) { const e = end; end = undefined; e(); await tick(); }
			(globalThis as any).setTimeout = real.setTimeout; (globalThis as any).clearTimeout = real.clearTimeout;
			const files = ran.filter(j => j.kind === 'file');
			for (const [p, t] of last) { const js = files.filter(j => j.filePath === p); if (js.length === 0 || js[js.length - 1].event !== t) bad('event-lost', `${h.join('; ')}: last event on ${p.slice(root.length)} is ${t}, jobs run for it: ${js.map(j => j.event)}`, h); if (js.length > count.get(p)!) bad('event-dup', `${h.join('; ')}: ${js.length} jobs for ${count.get(p)} events`, h); }
			if (files.some(j => !last.has(j.filePath))) bad('event-made-up', `${h.join('; ')}: jobs ${files.map(j => j.filePath)}`, h);
			if (canon(ran.filter(j => j.kind === 'full').map(j => j.repoPath)) !== canon([R1, R2])) bad('full', `${h.join('; ')}: full passes ${ran.filter(j => j.kind === 'full').map(j => j.repoPath)}`, h);
			q.stop(); await w.close(); if (subs.some((s: any) => s.open)) bad('close', 'a watch stays open after close', h);
		};
		let frontierW: W[][] = [[]];
		for (let d = 0; d < wdepth; d++) { const nx: W[][] = []; for (const s of frontierW) for (const op of WOPS) { const p = [...s, op]; if (op[0] === 'done' && s.length && s[s.length - 1]![0] === 'done') continue; if (d < wdepth - 1) nx.push(p); else if (mine(item++)) { await go(p); } } frontierW = nx; }
		if (mine(item++)) { // removing a repository stops its events only
			subs.length = 0; const q = new IndexQueue(), w = new Watcher(), ix = new Indexer(null, q, w); await ix.addRepo(R1); await ix.addRepo(R2); await ix.removeRepo(R1);
			if (canon(subs.filter((s: any) => s.open).map((s: any) => s.path)) !== canon([R2])) bad('remove', `after removing a repository the open watches are ${subs.filter((s: any) => s.open).map((s: any) => s.path)}`, {});
			await ix.addRepo(R1); if (subs.filter((s: any) => s.open).length !== 2) bad('readd', 'a re-added repository is not watched', {});
		}
		// adding and removing repositories that overlap: the last request for each one decides, and nothing stays open after a close
		const AR: [string, string, number][] = [['add', R1, 0], ['remove', R1, 0], ['add', R2, 0], ['add', R1, 1], ['remove', R1, 1], ['remove', R2, 2], ['add', R1, 3]];
		for (let len = 2; len <= (THOROUGH ? 5 : 4); len++) for (const seq of sequences(AR.length, len)) {
			if (!mine(item++)) continue; chk.states++; chk.transitions += len; subs.length = 0; const w = new Watcher(), want = new Map<string, boolean>(), h = seq.map(i => AR[i]!.join(' ').replaceAll(root, '')); const all: Promise<unknown>[] = [];
			for (const i of seq) { const [op, r, wait] = AR[i]!; all.push(op === 'add' ? w.addRepo(r) : w.removeRepo(r)); want.set(r, op === 'add'); for (let k = 0; k < wait; k++) await null; }
			await Promise.all(all); const open = subs.filter((s: any) => s.open).map((s: any) => s.path).sort(), exp = [...want].filter(x => x[1]).map(x => x[0]).sort(); if (canon(open) !== canon(exp)) bad('overlap', `${h.join('; ')}: open watches ${open}, expected ${exp}`, h);
			w.addRepo(R2).catch(() => undefined); await w.close(); if (subs.some((s: any) => s.open)) bad('close', `${h.join('; ')}: a watch stays open after close`, h);
		}
		// the configuration directories, a user's and each repository's own
		const { globalConfigDirs } = await repo('src/config/paths.ts'); const GD: string[] = globalConfigDirs(); if (!GD.every(d => d.startsWith(process.env['HOME']! + '/'))) throw new Error('config directories outside the scratch home');
		for (const [exist, proj, store, how] of product(subsets([0, 1, 2]), [true, false], [true, false], ['start', 'add'])) {
			if (!mine(item++)) continue; chk.states++; GD.forEach((d, i) => { rmSync(d, { recursive: true, force: true }); if (exist.includes(i)) mkdirSync(d, { recursive: true }); }); rmSync(R1, { recursive: true, force: true }); mkdirSync(R1); if (proj) for (const d of ['templates', 'feedback']) mkdirSync(join(R1, '.insrc', d), { recursive: true });
			subs.length = 0; const q = new IndexQueue(), w = new Watcher(), ix = new Indexer(null, q, w, store ? {} : undefined), h = { exist, proj, store, how };
			if (how === 'start') await ix.start([{ path: R1, name: 'one', status: 'ready', addedAt: '' }]); else { await ix.start([]); await ix.addRepo(R1); }
			const ran: any[] = []; const real2 = globalThis.setTimeout; let fire: (() => void)[] = []; (globalThis as any).setTimeout = (fn: () => void) => { fire.push(fn); return fire.length; }; void q.start(async (j: any) => void ran.push(j)); await tick();
			const at = (p: string): any[] => subs.filter((s: any) => s.open && p.startsWith(s.path + '/') && !p.slice(s.path.length + 1).split('/').some(x => (s.opts?.ignore ?? []).includes(x)));
			const files = [...GD.flatMap((d, i) => exist.includes(i) ? [join(d, 'tester', 'n.md')] : []), ...(proj && (store || how === 'start') ? [join(R1, '.insrc', 'templates', 'm.md'), join(R1, '.insrc', 'feedback', 'tester', 'f.md')] : [])].filter(f => store || !GD.some(d => f.startsWith(d)));
			for (const f of files) { const s = at(f); chk.transitions++; if (s.length !== 1) { bad('config watch', `${f} is watched ${s.length} times`, h); continue; } fire = []; ran.length = 0; for (const type of ['create', 'delete']) { s[0].cb(null, [{ type, path: f }]); for (const x of fire.splice(0).slice(-1)) x(); await tick(); } const exp = ['create', 'delete'].map(event => ({ kind: 'config-file', filePath: f, scope: f.startsWith(R1) ? { kind: 'project', repoPath: R1 } : { kind: 'global' }, event })); if (canon(ran) !== canon(exp)) bad('config event', `events on ${f} give ${canon(ran)}`, h); }
			await ix.removeRepo(R1); if (subs.some((s: any) => s.open && (s.path === R1 || s.path.startsWith(R1 + '/')))) bad('remove', 'after removing a repository it is still watched', h); (globalThis as any).setTimeout = real2; q.stop(); await tick(); await w.close();
		}
	});
	chk.traces = chk.transitions;
	chk.finish();
});
