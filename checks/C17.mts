// C17: detached workflow runs — start/poll/abort under every interleaving with the run's own progress; retention; token accounting.
import { Check, main, THOROUGH, canon, SHARD, repo, sequences, SCRATCH } from '../lib/mc.mts';
import { existsSync, readFileSync, mkdirSync, rmSync } from 'node:fs';
import { join } from 'node:path';
import { clock, installClock } from '../lib/vtime.mts';

let G: any, W: any, X: any;
const tick = async (n = 12): Promise<void> => { for (let i = 0; i < n; i++) await new Promise(r => setImmediate(r)); };
const PLANS: Record<string, any[]> = {
	plain: [['s1', 'echo.a'], ['s2', 'echo.b'], ['s3', 'echo.c']].map(([id, runner]) => ({ id, runner, params: {} })),
	pausing: [['s1', 'echo.a'], ['s2', 'ask'], ['s3', 'echo.c']].map(([id, runner]) => ({ id, runner, params: {} })),
	asks2: [['s1', 'ask'], ['s2', 'ask']].map(([id, runner]) => ({ id, runner, params: {} })),
	broken: [{ id: 's1', runner: 'nope', params: {} }],
};
const GOOD = { body: { title: 'Demo', summary: 'Grounded summary [[c1]].', bulletList: ['first [[c1]]'] }, citations: [{ id: 'c1', kind: 'step-output', ref: 's1' }] };
const BAD = { body: { title: 'Demo', summary: 'Ungrounded [[c9]].', bulletList: ['x [[c9]]'] }, citations: [] };
/** what the run's model does next, chosen by the explorer */
type Ans = 'good' | 'bad' | 'fail';
interface Run { id: string; plan: string; waiting: { kind: string; ok: (v: any) => void; no: (e: Error) => void }[]; sig?: AbortSignal | undefined; dir: string }
function begin(id: string, plan: string): Run {
	const dir = join(SCRATCH, `repo-${id}`); rmSync(dir, { recursive: true, force: true }); mkdirSync(dir, { recursive: true });
	const r: Run = { id, plan, waiting: [], dir };
	const provider = { supportsTools: false, capabilities: { structuredOutput: true, toolCalling: false, vision: false, webSearch: false, streaming: false, embeddings: false }, complete: async () => { throw new Error('unused'); }, stream: async function* () { /* none */ }, embed: async () => [], completeStructured: (m: any[], _s: any, o: any) => new Promise((ok, no) => { r.sig = o?.signal; r.waiting.push({ kind: '', ok, no }); }) };
	G.startWorkflowRun({}, { prepare: () => ({ intent: { workflow: 'stub', focus: `f ${id}`, repoPath: dir, repoIndexedAt: null, params: {} }, runId: id, epicKey: `k-${id}`, provider, modelLabel: 'ollama:m', clientDefault: undefined, review: false, repoPath: dir }) });
	return r;
}
/** specification of one run as a function of the answers given so far and of when it was aborted */
class Spec {
	frames: string[] = ['decompose']; status = 'running'; stage = 'plan'; attempt = 1; artifact = false; asks: string[]; pos = 0; aborted = false; loose = false;
	constructor(readonly plan: string) { this.asks = PLANS[plan]!.filter(s => s.runner === 'ask').map(s => s.id); }
	get pending(): boolean { return this.stage !== 'end'; }
	end(st: string): void { this.stage = 'end'; if (this.status === 'running') this.status = st; }
	/** next stop after a step was answered: another question, or the final artifact; an aborted run stops instead */
	go(): void {
		if (this.aborted) { this.end('aborted'); return; }
		if (this.pos < this.asks.length) { this.frames.push(`step-start ${this.asks[this.pos]}`); this.stage = 'step'; } else { this.frames.push(`synthesize-attempt ${this.attempt}`); this.stage = 'synth'; }
	}
	answer(a: Ans): void {
		if (this.stage === 'end') return;
		if (a === 'fail') { this.end('error'); return; }
		if (this.stage === 'plan') { this.frames.push('plan-ready'); if (this.plan === 'broken') { this.end('error'); return; } this.go(); return; }
		if (this.stage === 'step') { this.frames.push(`step-done ${this.asks[this.pos]}`); this.pos++; this.go(); return; }
		if (a === 'good') { if (this.aborted) { this.end('aborted'); return; } this.artifact = true; this.frames.push('done'); this.end('done'); return; }
		if (this.attempt === 4) { this.end('error'); return; }
		this.frames.push(`synthesize-retry ${this.attempt}`); this.attempt++; this.go();
	}
	abort(): void { if (this.status === 'running') { this.status = 'aborted'; } if (this.stage !== 'end') this.aborted = true; }
}
const fr = (f: any): string => f.phase + (f.stepId ? ` ${f.stepId}` : f.attempt ? ` ${f.attempt}` : '');
interface Watch { cursor: number; got: string[]; last: string }
const terminal = (s: string): boolean => s !== 'running' && s !== 'unknown';
function poll(r: Run, s: Spec, w: Watch): string | null {
	const p = G.pollWorkflowRun(r.id, w.cursor); w.got.push(...p.frames.map(fr)); 
	if (p.cursor !== w.cursor + p.frames.length) return `a poll from ${w.cursor} returned ${p.frames.length} frames and cursor ${p.cursor}`;
	w.cursor = p.cursor;
	if (canon(w.got) !== canon(s.frames)) return `polling yielded the frames ${w.got}, expected ${s.frames}`;
	if (p.status !== s.status) return `poll reports ${p.status}, expected ${s.status}`;
	if (terminal(w.last) && p.status !== w.last) return `the run changed from ${w.last} to ${p.status} after it had ended`;
	w.last = p.status;
	if ((p.result !== undefined) !== (s.status === 'done')) return `poll of a ${s.status} run ${p.result ? 'carries' : 'lacks'} a result`;
	if (p.result && (p.result.runId !== r.id || !existsSync(p.result.path) || p.result.path.startsWith(r.dir + '/') === false)) return `the result names ${p.result.path} of ${p.result.runId}`;
	if ((s.status === 'error') !== (p.error !== undefined && s.status === 'error') || (s.status === 'error' && !p.error)) return 'a failed run has no error text';
	if (s.status === 'running' && p.error !== undefined) return `a running run reports the error ${p.error}`;
	if (typeof p.model !== 'string' || !p.model) return 'poll carries no model';
	return null;
}
const OPS = ['good', 'bad', 'fail', 'poll', 'abort'] as const;
async function history(chk: Check, plan: string, seq: readonly string[], n: string): Promise<boolean> {
	G._resetWorkflowRuns(); const r = begin(n, plan), o = begin(n + 'x', 'plain'); const s = new Spec(plan); const w: Watch = { cursor: 0, got: [], last: 'running' }, w2: Watch = { cursor: 0, got: [], last: 'running' };
	let bad: string | null = null; await tick(); const wo: Watch = { cursor: 0, got: [], last: 'running' }; const so = new Spec('plain');
	for (const op of seq) {
		chk.transitions++;
		if (op === 'poll') bad ??= poll(r, s, w);
		else if (op === 'abort') { const a = G.abortWorkflowRun(r.id); if (a.ok !== true) bad ??= 'aborting a known run was refused'; s.abort(); bad ??= poll(r, s, w2); if (s.aborted && r.sig && !r.sig.aborted) bad ??= 'aborting did not signal the running model call'; }
		else { const q = r.waiting.shift(); if (!q) { if (s.pending) bad ??= `the run waits for an answer in stage ${s.stage} but asked nothing`; break; } if (!s.pending) bad ??= `the run asked for another answer after it ended as ${s.status}`; const stage = s.stage; s.answer(op as Ans); if (op === 'fail') q.no(new Error('model down')); else q.ok(stage === 'plan' ? { workflow: 'stub', steps: PLANS[plan] } : stage === 'step' ? { said: 'x' } : op === 'good' ? GOOD : BAD); await tick(30); }
		if (bad) break;
	}
	bad ??= poll(r, s, w) ?? poll(r, s, { cursor: 0, got: [], last: 'running' }) ?? poll(o, so, wo);
	const files = existsSync(join(r.dir, 'docs/stub')); if (!bad && files !== s.artifact) bad = `the run ended as ${s.status} and ${files ? 'left' : 'wrote no'} artifact`;
	if (!bad && s.artifact) { const p = G.pollWorkflowRun(r.id).result.path as string; if (!readFileSync(p, 'utf8').includes('Grounded') || JSON.parse(readFileSync(p.replace(/md$/, 'json'), 'utf8')).meta.runId !== r.id) bad = 'the artifact is not the accepted one'; }
	chk.evaluations++; if (bad) chk.violation(bad.replace(/[\d,].*/, '').slice(0, 60), `${plan} run, ${seq.join(', ')}: ${bad}`, { plan, seq });
	for (const x of [r, o]) { for (const q of x.waiting) q.no(new Error('end')); } await tick(4); rmSync(r.dir, { recursive: true, force: true }); rmSync(o.dir, { recursive: true, force: true });
	return s.pending;
}
async function work(chk: Check, mine: (i: number) => boolean): Promise<void> {
	installClock(); G = await repo('src/daemon/workflow-run-registry.ts'); W = await repo('src/daemon/workflow-rpc.ts'); X = await repo('src/workflow/executor.ts');
	X.registerRunner({ id: 'ask', workflow: 'stub', run: async (c: any) => ({ type: 'llm-pause', prompt: 'p', userTurn: 'u', schema: {}, preparedBlob: {} }), finalize: async (a: any) => ({ type: 'output', output: a }) });
	let k = 0, uid = 0;
	for (const plan of Object.keys(PLANS)) for (let n = 0; n <= (THOROUGH ? 9 : 6); n++) for (const q of sequences(OPS.length, n)) {
		const seq = q.map(i => OPS[i]!); if (seq.some((o, i) => o === 'poll' && seq[i + 1] === 'poll') || seq.filter(o => o === 'abort').length > 2) continue;
		const s = new Spec(plan); let dead = false, over = 0; for (const o of seq) { if (o !== 'poll' && o !== 'abort') { if (!s.pending) dead = true; s.answer(o); } else if (o === 'abort') s.abort(); if (!s.pending) over++; } if (dead || over > 2) continue;
		// 'bad' matters only for artifacts
		{ const t = new Spec(plan); if (seq.some(o => { const b = o === 'bad' && t.stage !== 'synth'; if (o === 'abort') t.abort(); else if (o !== 'poll') t.answer(o); return b; })) continue; }
		if (!mine(k++)) continue; clock.now += 1000; await history(chk, plan, seq, `r${uid++}`); chk.nontrivial++;
	}
	// every number of rejected artifacts before acceptance, with an abort at every point
	for (let bads = 0; bads <= 4; bads++) for (let at = -1; at <= bads + 2; at++) { const seq: string[] = ['good', ...Array(bads).fill('bad'), ...(bads < 4 ? ['good'] : [])]; if (at >= 0) seq.splice(Math.min(at, seq.length), 0, 'abort'); { const t = new Spec('plain'); let cut = seq.length; seq.forEach((o, i) => { if (o === 'abort') t.abort(); else { if (!t.pending) cut = Math.min(cut, i); t.answer(o as Ans); } }); seq.length = cut; } if (mine(k++)) { await history(chk, 'plain', seq, `b${uid++}`); } }
	// retention: running runs are never forgotten, the newest 64 are kept, the oldest ended ones go first
	// (r runs on, a was aborted, f failed, d is done with its artifact)
	for (const pat of ['r', 'a', 'ra', 'rra', 'aar', 'arrr', 'f', 'd', 'rf', 'rd', 'fa', 'af', 'da', 'ad', 'fd', 'df', 'rfad', 'dafr', 'frda']) for (const total of [63, 64, 65, 66, 80, 130]) {
		if (!mine(k++)) continue; G._resetWorkflowRuns(); const rs: { r: Run; run: boolean }[] = [];
		const keep: { r: Run; run: boolean }[] = [];
		for (let i = 0; i < total; i++) {
			clock.now += 1000; const r = begin(`g${i}`, 'plain'); const how = pat[i % pat.length]!, run = how === 'r'; const e = { r, run: true }; rs.push(e); keep.push(e);
			while (keep.length > 64) { const j = keep.findIndex(x => !x.run); if (j < 0) break; keep.splice(j, 1); }
			await tick(3); if (run) continue; e.run = false;
			if (how === 'a') G.abortWorkflowRun(r.id); else for (const a of how === 'f' ? ['fail'] : ['plan', 'good']) { const q = r.waiting.shift()!; if (a === 'fail') q.no(new Error('model down')); else q.ok(a === 'plan' ? { workflow: 'stub', steps: PLANS['plain'] } : GOOD); await tick(30); }
			const st = G.pollWorkflowRun(r.id).status, want = ({ a: 'aborted', f: 'error', d: 'done' } as Record<string, string>)[how]!; if (st !== want) { chk.violation('retention', `run ${r.id} ended as ${st}, expected ${want}`, { pat, total }); break; }
		}
		const known = rs.filter(x => G.pollWorkflowRun(x.r.id).status !== 'unknown').map(x => x.r.id); chk.evaluations++;
		if (canon(known) !== canon(keep.map(x => x.r.id))) { const lost = keep.find(x => !known.includes(x.r.id)); chk.violation('retention', `after ${total} runs (${pat}), ${lost ? `${lost.run ? 'running' : 'ended'} run ${lost.r.id} was forgotten` : `${known.length} runs are kept, expected ${keep.length}`}`, { pat, total }); }
		for (const x of rs) { for (const q of x.r.waiting) q.no(new Error('end')); rmSync(x.r.dir, { recursive: true, force: true }); } await tick(4);
	}
	if (mine(k++)) {
		for (const id of ['nope', '', '__proto__', 'constructor']) { const p = G.pollWorkflowRun(id, 3); chk.evaluations++; if (p.status !== 'unknown' || p.frames.length || !p.error || p.cursor !== 3 || G.abortWorkflowRun(id).ok !== false) chk.violation('unknown', `an unknown run "${id}" polls as ${canon(p)}`, { id }); }
		G._resetWorkflowRuns(); try { G.startWorkflowRun({}, { prepare: () => { throw new Error('no repo'); } }); chk.violation('prepare', 'a run that cannot be prepared was started', {}); } catch { /* refused */ }
	}
	// token progress: nothing lost or counted twice, whatever the stage changes
	for (let n = 0; n <= 70; n++) for (const change of [1, 3, 7, 16, 17, 100]) for (const flush of [1, 2]) {
		if (!mine(k++)) continue; const a = W.makeTokenAccumulator(); const evs: any[] = []; for (let i = 0; i < n; i++) { const e = a.push(`s${Math.floor(i / change)}`, 'x'); if (e) evs.push(e); } for (let f = 0; f < flush; f++) { const e = a.flush(); if (e) evs.push(e); } chk.evaluations++;
		let sum = 0; for (const e of evs) { sum += e.tokensDelta; if (e.tokensTotal !== sum || e.tokensDelta <= 0 || e.stageId !== `s${Math.floor((sum - 1) / change)}`) { chk.violation('tokens', `token progress ${canon(evs)} of ${n} tokens changing stage every ${change}`, { n, change }); break; } }
		if (sum !== n) chk.violation('tokens', `${n} tokens were reported as ${sum}`, { n, change });
	}
}
main(async () => {
	const chk = new Check('C17', 'model_checking');
	chk.assumptions.push('the model behind a run is a stand-in whose answers the explorer delivers', 'virtual clock');
	await chk.sharded(m => work(chk, m));
	if (SHARD < 0) { chk.states = chk.nontrivial; chk.traces = chk.evaluations; chk.rule = 'every sequence of up to 5 (thorough 7) model answers, failures, polls and aborts for four plans; every retention pattern; every token count'; chk.sample({ ops: OPS, plans: Object.keys(PLANS) }); chk.finish(); }
});
