// Controlled scheduler for stateless exploration: tasks run until they reach a gate; the explorer decides which gate opens next,
// and every maximal schedule (up to a bound) is executed by replaying prefixes.
import { realSetTimeout } from './mc.mts';
const realImmediate = globalThis.setImmediate.bind(globalThis);
const tick = (): Promise<void> => new Promise(r => realImmediate(r));

export interface Gate { label: string; task: number; open(): void }
export class Sched {
	waiting: Gate[] = []; inflight = 0; trace: string[] = []; progress = 0;
	private seq = 0;
	constructor(readonly active = true) {}
	/** code under test reached a scheduling point */
	point(label: string, task = -1): Promise<void> {
		if (!this.active) return Promise.resolve();
		this.progress++;
		return new Promise(r => { this.waiting.push({ label, task: task < 0 ? this.seq++ : task, open: r }); });
	}
	/** gate an operation: it starts when scheduled and counts as in flight until it settles */
	async gated<T>(label: string, fn: () => Promise<T> | T): Promise<T> {
		await this.point(label);
		this.inflight++;
		try { return await fn(); } finally { this.inflight--; this.progress++; }
	}
	/** wait until nothing more can happen without a decision */
	async settle(done: () => boolean, idle = 12): Promise<void> {
		let quiet = 0, last = -1;
		for (let i = 0; ; i++) {
			await tick();
			if (this.inflight > 0) { quiet = 0; if (i > 2000) await new Promise(r => realSetTimeout(r, 1)); if (i > 20000) throw new Error('scheduler: operation in flight never settled'); continue; }
			if (this.progress !== last) { last = this.progress; quiet = 0; }
			if (++quiet >= (done() ? 3 : idle)) return;
		}
	}
}
export interface RunResult { trace: string[]; choices: number[]; widths: number[]; stuck: boolean }
/**
 * Execute one schedule: `choices` is a forced prefix; beyond it the first waiting gate is taken.
 * The waiting set is ordered by label then arrival, so that a choice index is stable between replays.
 */
export async function runSchedule(s: Sched, done: () => boolean, choices: readonly number[], idle?: number): Promise<RunResult> {
	const widths: number[] = [], taken: number[] = [];
	for (let step = 0; ; step++) {
		await s.settle(done, idle);
		if (s.waiting.length === 0) return { trace: s.trace, choices: taken, widths, stuck: !done() };
		if (step > 400) throw new Error('schedule too long: ' + s.trace.slice(-6).join(' ; '));
		s.waiting.sort((a, b) => (a.label < b.label ? -1 : a.label > b.label ? 1 : a.task - b.task));
		const c = choices[step] ?? 0;
		if (c >= s.waiting.length) throw new Error(`nondeterministic replay: choice ${c} of ${s.waiting.length} at step ${step} (${s.trace.join(' ; ')})`);
		widths.push(s.waiting.length); taken.push(c);
		const g = s.waiting.splice(c, 1)[0]!;
		s.trace.push(g.label);
		s.progress++;
		g.open();
	}
}
/** depth-first enumeration of all schedules; `one` executes the given prefix on a fresh instance and returns what happened */
export async function allSchedules(one: (choices: number[]) => Promise<RunResult>, cap = Infinity): Promise<{ runs: number; complete: boolean }> {
	const stack: number[][] = [[]]; let runs = 0;
	while (stack.length) {
		if (runs >= cap) return { runs, complete: false };
		const pre = stack.pop()!;
		const r = await one(pre); runs++;
		for (let i = r.widths.length - 1; i >= pre.length; i--) for (let c = 1; c < r.widths[i]!; c++) stack.push([...r.choices.slice(0, i), c]);
	}
	return { runs, complete: true };
}
