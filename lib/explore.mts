// Level-synchronous explicit-state exploration with worker processes. The caller's `worker` module exports
// init(), roots(), ops(), step(); states are opaque structured-cloneable objects carrying a `key` for deduplication.
import { fork, type ChildProcess } from 'node:child_process';
import { mkdirSync } from 'node:fs';
import { join } from 'node:path';
import { Check, SCRATCH, kids as allKids } from './mc.mts';

export interface Succ<S> { op: number; state: S | null; key: string; viol?: { key: string; what: string; detail?: unknown } }
export interface Domain<S> {
	init(): Promise<void>;
	roots(): Promise<{ name: string; state: S; key: string; viol?: { key: string; what: string; detail?: unknown } }[]>;
	opName(i: number): string;
	/** all successors of a state */
	expand(s: S): Promise<Succ<S>[]>;
}
export const isWorker = process.argv.includes('--worker');
export const NWORKERS = Number(process.env['MC_WORKERS'] ?? 8);

export async function serveWorker<S>(d: Domain<S>): Promise<void> {
	await d.init();
	process.on('message', (m: any) => {
		void (async () => {
			try {
				const res: { i: number; succ: Succ<S>[] }[] = [];
				for (const t of m.tasks) res.push({ i: t.i, succ: await d.expand(t.state) });
				process.send!({ res });
			} catch (e) { process.send!({ error: String((e as Error)?.stack ?? e) }); }
		})();
	});
	process.on('disconnect', () => process.exit(0));
	process.send!({ ready: true });
}

export interface Limits { depth: number; maxMs: number; maxStates?: number }
export async function explore<S>(chk: Check, d: Domain<S>, lim: Limits): Promise<{ depthDone: number }> {
	await d.init();
	const t0 = performance.now();
	const roots = await d.roots();
	for (const r of roots) if (r.viol) chk.violation(r.viol.key, r.viol.what, { path: [`start: ${r.name}`], detail: r.viol.detail });
	const kids: ChildProcess[] = [];
	for (let w = 0; w < NWORKERS; w++) {
		const scr = join(SCRATCH, `w${w}`);
		mkdirSync(join(scr, 'tmp'), { recursive: true });
		kids.push(fork(process.argv[1]!, ['--worker'], { execArgv: process.execArgv, serialization: 'advanced', env: { ...process.env, MC_SCRATCH: scr, TMPDIR: join(scr, 'tmp') } }));
	}
	allKids.push(...kids);
	await Promise.all(kids.map(k => new Promise<void>((r, j) => { k.once('message', () => r()); k.once('exit', c => j(new Error(`worker exited ${c}`))); })));
	kids.forEach(k => k.removeAllListeners('exit'));
	const seen = new Set<string>();
	type Node = { state: S | null; par: number; op: number; root: string };
	const nodes: Node[] = [];
	let frontier: number[] = [];
	for (const r of roots) if (!seen.has(r.key)) { seen.add(r.key); frontier.push(nodes.length); nodes.push({ state: r.state, par: -1, op: -1, root: r.name }); }
	const path = (i: number): string[] => { const p: string[] = []; for (let n = nodes[i]!; ; n = nodes[n.par]!) { if (n.par < 0) { p.unshift(`start: ${n.root}`); return p; } p.unshift(d.opName(n.op)); } };
	let depthDone = 0;
	outer: for (let depth = 1; depth <= lim.depth; depth++) {
		const next: number[] = [];
		let pos = 0; let stop = false;
		await Promise.all(kids.map(async k => {
			while (pos < frontier.length && !stop) {
				const batch = frontier.slice(pos, pos + 4); pos += batch.length;
				const m: any = await new Promise((r, j) => { const ex = (c: unknown) => j(new Error(`worker exited ${c}`)); k.once('exit', ex); k.once('message', x => { k.removeListener('exit', ex); r(x); }); k.send({ tasks: batch.map(i => ({ i, state: nodes[i]!.state as any })) }); });
				if (m.error) throw new Error(m.error);
				for (const { i, succ } of m.res) {
					for (const s of succ as Succ<S>[]) {
						chk.transitions++;
						if (s.viol) { chk.violation(s.viol.key, s.viol.what, { path: [...path(i), d.opName(s.op)], detail: s.viol.detail }); continue; }
						if (s.state === null || seen.has(s.key)) continue;
						seen.add(s.key); next.push(nodes.length);
						nodes.push({ state: s.state, par: i, op: s.op, root: '' });
					}
					nodes[i]!.state = null;
				}
				if (performance.now() - t0 > lim.maxMs || (lim.maxStates && nodes.length > lim.maxStates)) stop = true;
			}
		}));
		if (stop && pos < frontier.length) { chk.exhaustive = false; chk.extra['stopped_in_depth'] = depth; chk.note(`stopped in depth ${depth}`); break outer; }
		depthDone = depth;
		chk.note(`depth ${depth}: ${nodes.length} states, ${chk.transitions} transitions, frontier ${next.length}`);
		frontier = next;
		if (frontier.length === 0) { chk.extra['fixpoint'] = true; break; }
	}
	chk.states += nodes.length; chk.extra['depth_completed'] = depthDone; chk.extra['roots'] = roots.map(r => r.name);
	for (const i of [nodes.length - 1, Math.floor(nodes.length / 2), Math.floor(nodes.length / 3)]) if (nodes[i]) chk.sample(path(i));
	kids.forEach(k => k.kill('SIGKILL'));
	return { depthDone };
}
