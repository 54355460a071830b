// Shared machinery: counters, evidence, known findings, violation reporting.
import { mkdirSync, readFileSync, writeFileSync, existsSync } from 'node:fs';
import { join } from 'node:path';
import { createHash } from 'node:crypto';

export const REPO = process.env['MC_REPO'] ?? '/repo';
export const VERIF = process.env['MC_VERIF'] ?? '/verif';
export const SCRATCH = process.env['MC_SCRATCH'] ?? '/tmp';
export const TIER = (process.env['VERIF_TIER'] ?? 'quick') as 'quick' | 'thorough';
export const THOROUGH = TIER === 'thorough';
export const SEED = Number(process.env['VERIF_SEED'] ?? '1') || 1;
// real clock captured before anything is stubbed
const realNow = Date.now.bind(Date);
const HANG_S = 780;
let current: Check | undefined;
const fsx = { writeFileSync, mkdirSync, readFileSync, existsSync };
const out = process.stdout.write.bind(process.stdout);
const exit = process.exit.bind(process);
const setT = globalThis.setTimeout.bind(globalThis);
export const realSetTimeout = setT;
export const realDateNow = realNow;

export type Level = 'model_checking' | 'fault_enumeration' | 'exploration';

interface Known { property: string; status?: string; key: string; what: string }

/** import a module of the code under test by its path relative to /repo */
export const repo = (p: string): Promise<any> => import(join(REPO, p));

/** worker processes; none outlives the coordinator */
export const kids: { kill(s: 'SIGKILL'): unknown }[] = [];
process.on('exit', () => kids.forEach(k => k.kill('SIGKILL')));
const shardArg = process.argv.find(a => a.startsWith('--shard='));
const PART = Number(process.argv.find(a => a.startsWith('--part='))?.slice(7) ?? 1);
/** index of this worker process, -1 in the coordinating process */
export const SHARD = shardArg ? Number(shardArg.slice(8)) : -1;
export const NSHARDS = Number(process.env['MC_WORKERS'] ?? 8);

export class Check {
	states = 0; transitions = 0; traces = 0; evaluations = 0; nontrivial = 0;
	samples: unknown[] = []; extra: Record<string, unknown> = {}; assumptions: string[] = [];
	exhaustive = true; rule = '';
	private t0 = realNow();
	private known: Known[];
	private knownHit = new Set<string>();
	private nviol = 0;
	private parts = 0;
	over = false;
	constructor(readonly id: string, readonly level: Level) {
		current = this;
		if (SHARD < 0 && !THOROUGH) setT(() => this.violation('hang', `the check, which takes well under two minutes on the original code, is still running after ${HANG_S} s: an operation of the code under test does not finish`, null), HANG_S * 1000).unref();
		const f = join(VERIF, 'known_findings.jsonl');
		this.known = fsx.existsSync(f)
			? fsx.readFileSync(f, 'utf8').split('\n').filter(l => l.trim().startsWith('{')).map(l => JSON.parse(l) as Known)
				.filter(k => k.property === id && k.status !== 'fixed')
			: [];
	}
	/**
	 * Split an exhaustive enumeration over worker processes: `work` runs in each worker with a predicate telling which
	 * items (by index) are its own; counters, samples and violations are merged in the coordinator.
	 */
	async sharded(work: (mine: (i: number) => boolean) => Promise<void>, n = NSHARDS): Promise<void> {
		const part = ++this.parts;
		if (SHARD >= 0) {
			if (part !== PART) return;
			process.on('disconnect', () => exit(0)); (process as any).channel?.unref();
			await work(k => k % n === SHARD);
			await new Promise<void>(r => process.send!({ done: { states: this.states, transitions: this.transitions, traces: this.traces, evaluations: this.evaluations, nontrivial: this.nontrivial, samples: JSON.parse(JSON.stringify(this.samples, jsonSafe)), extra: JSON.parse(JSON.stringify(this.extra, jsonSafe)), exhaustive: this.exhaustive } }, () => r()));
			exit(0);
		}
		const { fork } = await import('node:child_process');
		await Promise.all(Array.from({ length: n }, (_, w) => new Promise<void>((res, rej) => {
			const scr = join(SCRATCH, `s${w}`);
			for (const d of ['tmp', 'home/.insrc']) fsx.mkdirSync(join(scr, d), { recursive: true });
			fsx.writeFileSync(join(scr, 'home/.insrc/config.json'), '{"logLevel":"fatal"}\n');
			const k = fork(process.argv[1]!, [`--shard=${w}`, `--part=${part}`], { execArgv: process.execArgv, serialization: 'advanced', env: { ...process.env, MC_SCRATCH: scr, TMPDIR: join(scr, 'tmp'), HOME: join(scr, 'home') } });
			let done = false; kids.push(k);
			k.on('message', (m: any) => {
				if (m.viol) { this.violation(m.viol.key, m.viol.what, m.viol.history); return; }
				if (m.done) {
					done = true; const d = m.done;
					for (const f of ['states', 'transitions', 'traces', 'evaluations', 'nontrivial'] as const) this[f] += d[f];
					for (const s of d.samples.slice(0, 1)) this.sample(s, 8);
					for (const [f, v] of Object.entries(d.extra)) this.extra[f] = typeof v === 'number' && typeof this.extra[f] === 'number' ? (this.extra[f] as number) + v : v;
					this.exhaustive &&= d.exhaustive;
				}
			});
			k.on('exit', c => { if (done) res(); else rej(new Error(`worker ${w} exited with ${c} before finishing`)); });
		})));
	}
	sample(s: unknown, cap = 6): void { if (this.samples.length < cap) this.samples.push(s); }
	/** progress note (stderr, so it never looks like a verdict) */
	note(s: string): void { process.stderr.write(`[${this.id}] ${((realNow() - this.t0) / 1000).toFixed(1)}s ${s}\n`); }
	/** Report a violation. `key` identifies the specific failing input/history. Exits unless it is a listed known finding. */
	violation(key: string, what: string, history: unknown): void {
		const k = this.known.find(x => x.key === key);
		if (k !== undefined) {
			if (!this.knownHit.has(key)) {
				this.knownHit.add(key);
				out(`KNOWN-FINDING: property=${this.id} ${k.what}\n`);
			}
			return;
		}
		this.nviol++;
		if (SHARD >= 0) { if (this.nviol <= 50 && process.connected) process.send!({ viol: { key, what, history: JSON.parse(JSON.stringify(history ?? null, jsonSafe)) } }); return; }
		fsx.mkdirSync(join(VERIF, 'replays'), { recursive: true });
		const p = join(VERIF, 'replays', `${this.id}-${createHash('sha1').update(key).digest('hex').slice(0, 10)}.json`);
		fsx.writeFileSync(p, JSON.stringify({ property: this.id, key, what, tier: TIER, seed: SEED, replay_cmd: `VERIF_TIER=${TIER} ./run.sh ${this.id}`, history }, jsonSafe, 1) + '\n');
		out(`  ${what}\n`);
		out(`VIOLATION property=${this.id} replay=${p}\n`);
		if (process.env['MC_CONTINUE'] === undefined) this.finish(1);
	}
	finish(code?: number): never {
		this.over = true;
		const cov: Record<string, unknown> = { exhaustive: this.exhaustive && this.nviol === 0 };
		if (this.level === 'model_checking') {
			cov['states'] = this.states; cov['transitions'] = this.transitions;
			cov['traces_validated_against_impl'] = this.traces;
		} else {
			cov['evaluations'] = this.evaluations; cov['distinct_nontrivial'] = this.nontrivial;
			if (this.states) cov['states'] = this.states;
			if (this.transitions) cov['transitions'] = this.transitions;
		}
		if (this.rule) cov['rule'] = this.rule;
		cov['samples'] = this.samples.length ? this.samples : ['(none recorded)'];
		Object.assign(cov, this.extra);
		const ev = {
			property: this.id, tier: TIER, seed: SEED, level: this.level, coverage: cov,
			assumptions: this.assumptions, wall_s: (realNow() - this.t0) / 1000, violations: this.nviol,
			known_findings_seen: [...this.knownHit],
		};
		fsx.mkdirSync(join(VERIF, 'evidence'), { recursive: true });
		fsx.writeFileSync(join(VERIF, 'evidence', `${this.id}.json`), JSON.stringify(ev, jsonSafe, 1) + '\n');
		const rc = code ?? (this.nviol > 0 ? 1 : 0);
		if (rc === 0) out(`OK property=${this.id} ${JSON.stringify({ states: this.states, transitions: this.transitions, traces: this.traces, evaluations: this.evaluations, nontrivial: this.nontrivial, ...this.extra }, jsonSafe)} wall=${ev.wall_s.toFixed(1)}s\n`);
		exit(rc);
	}
}

function jsonSafe(_k: string, v: unknown): unknown {
	if (typeof v === 'bigint') return `${v}n`;
	if (v instanceof Map) return Object.fromEntries(v);
	if (v instanceof Set) return [...v];
	if (v instanceof Uint8Array) return `hex:${Buffer.from(v).toString('hex')}`;
	if (v instanceof Error) return `${v.name}: ${v.message}`;
	return v;
}
export const show = (v: unknown): string => JSON.stringify(v, jsonSafe);

/** canonical JSON (sorted keys) */
export function canon(v: unknown): string {
	return JSON.stringify(v, (_k, x) => {
		if (x instanceof Map) return { '#map': [...x.entries()].sort((a, b) => (String(a[0]) < String(b[0]) ? -1 : 1)) };
		if (x instanceof Set) return { '#set': [...x].sort() };
		if (typeof x === 'bigint') return `${x}n`;
		if (x !== null && typeof x === 'object' && !Array.isArray(x) && !(x instanceof Uint8Array))
			return Object.fromEntries(Object.entries(x as object).sort((a, b) => (a[0] < b[0] ? -1 : 1)));
		return x;
	});
}
export const hash = (s: string): string => createHash('sha1').update(s).digest('base64');

/**
 * An exception nobody expected. On the original code none of the enumerated inputs raises one, so one that comes out of
 * the code under test (the innermost frame that is neither node's nor a dependency's is /repo's), or a result too
 * misshapen for the check to read, is reported as a violation. Trouble of the machine (disk full, too many files, out of
 * memory) and modules that cannot be loaded are not: they end the check without a verdict.
 */
function crashed(e: any, how: string): never {
	const stack = String(e?.stack ?? e), code = String(e?.code ?? '');
	process.stderr.write(`check error${how}: ${stack}\n`);
	const frame = stack.split('\n').find(l => /^\s+at /.test(l) && !/node:|node_modules|<anonymous>\)?$/.test(l)) ?? '';
	const machine = /^(ENOSPC|EMFILE|ENFILE|ENOMEM|EAGAIN|ERR_MODULE_NOT_FOUND|ERR_WORKER)/.test(code) || e instanceof SyntaxError && !/JSON/.test(e.message) || /does not provide an export|worker \d+ exited|MDB_|heap out of memory/.test(e?.message ?? '');
	const inCode = frame.includes(`${REPO}/`), shape = e instanceof TypeError && !/is not a (function|constructor)/.test(e.message) && frame.includes(`${VERIF}/`);
	if (!machine && current && !current.over && (inCode || shape)) {
		current.violation(`crash:${String(e?.name)}:${String(e?.message).replace(/[\d/].*/, '').slice(0, 60)}`, inCode ? `the code under test threw ${e?.name}: ${String(e?.message).slice(0, 300)} (${frame.trim()}) on an input it handles` : `the code under test returned something the check cannot read: ${e?.message} (${frame.trim()})`, { stack: stack.split('\n').slice(0, 14) });
		if (SHARD >= 0) { current.over = true; setT(() => exit(4), 200); return undefined as never; }
	}
	exit(3);
}
/** run main with guards: unexpected exceptions, and an event loop that drains while an awaited operation never settles */
export function main(fn: () => Promise<void>): void {
	process.on('uncaughtException', e => crashed(e, ' (uncaught)'));
	process.on('unhandledRejection', e => crashed(e, ' (unhandled)'));
	process.on('beforeExit', () => {
		if (!current || current.over) return;
		current.violation('stuck', 'an operation of the code under test never completes: nothing is left to run and it is still awaited', { stack: 'event loop drained' });
		current.over = true; if (SHARD >= 0) setT(() => exit(4), 200);
	});
	fn().catch(e => crashed(e, ''));
}

/** all sequences over `items` of length 0..n, in order, as index arrays */
export function* sequences(nItems: number, len: number): Generator<number[]> {
	if (len === 0) { yield []; return; }
	const idx = new Array<number>(len).fill(0);
	for (;;) {
		yield idx.slice();
		let i = len - 1;
		while (i >= 0 && idx[i] === nItems - 1) { idx[i] = 0; i--; }
		if (i < 0) return;
		idx[i]!++;
	}
}
export function* permutations<T>(a: readonly T[]): Generator<T[]> {
	if (a.length <= 1) { yield [...a]; return; }
	for (let i = 0; i < a.length; i++) {
		const rest = [...a.slice(0, i), ...a.slice(i + 1)];
		for (const p of permutations(rest)) yield [a[i]!, ...p];
	}
}
export function* subsets<T>(a: readonly T[]): Generator<T[]> {
	for (let m = 0; m < 1 << a.length; m++) yield a.filter((_, i) => m & (1 << i));
}
export function* product<T>(...lists: Iterable<T>[]): Generator<T[]> {
	if (lists.length === 0) { yield []; return; }
	const [h, ...t] = lists.map(l => [...l]); // a list may be a generator: it is read once
	for (const x of h!) for (const r of product(...t)) yield [x, ...r];
}
