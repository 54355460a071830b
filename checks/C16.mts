// C16: workflow runs — steps in plan order one at a time, exact placeholder substitution, resumable pauses, clean failures.
import { Check, main, THOROUGH, canon, SHARD, repo, product, sequences, SCRATCH } from '../lib/mc.mts';
import { readFileSync, existsSync, rmSync } from 'node:fs';
import { join } from 'node:path';

let X: any, ST: any;
/** what a runner does: outcome of run(), then of each finalize() */
const KINDS: Record<string, string[]> = { out: ['o'], nul: ['n'], pause: ['p', 'o'], pause2: ['p', 'p', 'o'], pause3: ['p', 'p', 'p', 'o'], err: ['e'], thr: ['t'], pauseErr: ['p', 'e'], pauseThr: ['p', 't'], pause2thr: ['p', 'p', 't'], nofin: ['p'], bareAgain: ['p', 'q', 'o'], bare: ['q', 'p', 'o'], nullAgain: ['p', 'z', 'o'], emptyAgain: ['p', 'y', 'q', 'o'], none: [] };
/** prepared state of a pause: the usual record, none at all, null, an empty record */
const blobOf = (c: string, step: string, nth: number, run: string): any => c === 'q' ? undefined : c === 'z' ? null : c === 'y' ? {} : { step, nth, run };
const isPause = (c: string): boolean => 'pqzy'.includes(c);
type Val = any;
const PARAMS: { n: string; v: any; want: (outs: Record<string, Val>) => any }[] = [];
const UNRES = Symbol('unresolvable');
/** independent resolver of `$sN.path` */
function path(root: any, segs: (string | number)[]): any { let c = root; for (const s of segs) { if (c === null || typeof c !== 'object' || !Object.hasOwn(c, s) || (Array.isArray(c) && s === 'length')) throw UNRES; c = c[s]; } return c; }
const R = (k: string, ...segs: (string | number)[]) => (o: Record<string, Val>): any => { if (!Object.hasOwn(o, k)) throw UNRES; return path(o[k], segs); };
const P = (n: string, v: any, want: (o: Record<string, Val>) => any): void => { PARAMS.push({ n, v, want }); };
P('none', {}, () => ({}));
P('literals', { a: 'plain', b: 1, c: null, d: ['x', { e: true }], f: 'costs $s1', g: '$sx', h: '$$s1', i: ' $s1', j: '' }, () => ({ a: 'plain', b: 1, c: null, d: ['x', { e: true }], f: 'costs $s1', g: '$sx', h: '$$s1', i: ' $s1', j: '' }));
P('whole s1', { x: '$s1' }, o => ({ x: R('s1')(o) }));
P('deep', { x: { y: ['$s1.v', '$s1.list[1].k', '$s1.list.0.k'] } }, o => ({ x: { y: [R('s1', 'v')(o), R('s1', 'list', 1, 'k')(o), R('s1', 'list', 0, 'k')(o)] } }));
P('s2 too', { a: '$s2.obj.deep', b: '$s1.nil', c: '$s2.arr' }, o => ({ a: R('s2', 'obj', 'deep')(o), b: R('s1', 'nil')(o), c: R('s2', 'arr')(o) }));
P('missing key', { x: '$s1.absent' }, R('s1', 'absent'));
P('inherited', { x: '$s1.constructor' }, R('s1', 'constructor'));
P('inherited step obj', { x: '$s1.obj.toString' }, R('s1', 'obj', 'toString'));
P('out of bounds', { x: '$s1.list[2]' }, R('s1', 'list', 2));
P('negative', { x: '$s1.list.-1' }, R('s1', 'list', -1));
P('through null', { x: '$s1.nil.z' }, R('s1', 'nil', 'z'));
P('through text', { x: '$s1.v.length' }, R('s1', 'v', 'length'));
P('unknown step', { x: '$s9' }, R('s9'));
P('own step', { x: '$s3.v' }, R('s3', 'v'));
const output = (id: string): any => ({ id, v: `val-${id}`, nil: null, n: 0, list: [{ k: `${id}0` }, { k: `${id}1` }], obj: { deep: { er: id } }, arr: [] });
interface Ev { what: string; run: string; step: string; params: any; outs: any; blob?: any; ans?: any }
let trace: Ev[] = []; let active = 0, maxActive = 0; const delay = (): Promise<void> => new Promise(r => setImmediate(r));
function act(code: string, ctx: any, step: string, nth: number): any {
	if (code === 'e') return { type: 'error', code: 'boom', message: `bad ${step}`, retryable: true };
	if (code === 't') throw new Error(`threw ${step}`);
	if (isPause(code)) return { type: 'llm-pause', prompt: `ask ${step} ${nth}`, userTurn: `turn ${step}`, schema: { n: nth }, preparedBlob: blobOf(code, step, nth, ctx.runId) };
	return { type: 'output', output: code === 'n' ? null : { ...output(step), params: ctx.params }, summary: 's' };
}
function register(): void {
	X._clearRunnerRegistryForTests();
	for (const [k, seq] of Object.entries(KINDS)) {
		if (k === 'none') continue;
		const go = async (what: string, code: string, ctx: any, extra: any, nth: number): Promise<any> => {
			active++; maxActive = Math.max(maxActive, active); const step = what === 'run' ? ctx.plan.steps[Object.keys(ctx.stepOutputs).length]?.id ?? '?' : String(extra.ans.reply).split('#')[0]!;
			trace.push({ what, run: ctx.runId, step, params: structuredClone(ctx.params), outs: structuredClone(ctx.stepOutputs), ...extra });
			await delay(); active--;
			const r = act(code, ctx, step, nth); if (code !== 'o') ctx.params.scribble = 'x'; return r;
		};
		X.registerRunner({ id: k, workflow: 'wf', run: (ctx: any) => go('run', seq[0]!, ctx, {}, 0), ...(seq.length > 1 ? { finalize: (ans: any, blob: any, ctx: any) => go('finalize', seq[Number(ans.reply.split('#')[1])]!, ctx, { ans, blob }, Number(ans.reply.split('#')[1])) } : {}) });
	}
}
function freeze<T>(o: T): T { if (o && typeof o === 'object' && !Object.isFrozen(o)) { Object.freeze(o); Object.values(o).forEach(freeze); } return o; }
interface St { kind: string; par: number }
type Want = { type: 'complete'; outs: any } | { type: 'error'; step: string; code?: string; retryable?: boolean };
/** what the run must do, from the plan alone */
function spec(steps: St[], run: string): { trace: Ev[]; pauses: string[]; end: Want; log: string[] } {
	const tr: Ev[] = [], pauses: string[] = [], log: string[] = []; const outs: Record<string, any> = {};
	for (const [i, s] of steps.entries()) {
		const id = `s${i + 1}`; let params: any;
		try { params = PARAMS[s.par]!.want(outs); } catch (e) { if (e !== UNRES) throw e; return { trace: tr, pauses, end: { type: 'error', step: id }, log }; }
		if (s.kind === 'none') return { trace: tr, pauses, end: { type: 'error', step: id, code: 'no-runner' }, log };
		const seq = KINDS[s.kind]!; log.push(`step-start ${id}`);
		for (let n = 0; ; n++) {
			const c = seq[n];
			if (c === undefined) return { trace: tr, pauses, end: { type: 'error', step: id, code: 'bad-runner' }, log };
			tr.push({ what: n === 0 ? 'run' : 'finalize', run, step: id, params: structuredClone(params), outs: structuredClone(outs), ...(n > 0 ? { ans: { reply: `${id}#${n}` }, blob: blobOf(seq[n - 1]!, id, n - 1, run) } : {}) });
			if (c === 'e') return { trace: tr, pauses, end: { type: 'error', step: id, code: 'boom', retryable: true }, log };
			if (c === 't') return { trace: tr, pauses, end: { type: 'error', step: id, code: 'runner-threw', retryable: false }, log };
			if (isPause(c)) { pauses.push(`${id}#${n}`); log.push(`step-paused ${id}`); continue; }
			outs[id] = c === 'n' ? null : { ...output(id), params }; log.push(`${n ? 'step-finalized' : 'step-output'} ${id}`); break;
		}
	}
	return { trace: tr, pauses, end: { type: 'complete', outs }, log };
}
const mkPlan = (steps: St[]): any => ({ workflow: 'wf', steps: steps.map((s, i) => ({ id: `s${i + 1}`, runner: s.kind, params: structuredClone(PARAMS[s.par]!.v) })) });
const intent = (r: string): any => ({ workflow: 'wf', focus: `f ${r}`, repoPath: '/r', repoIndexedAt: null, params: {} });
type Mode = 'direct' | 'stored' | 'twice';
async function drive(steps: St[], run: string, mode: Mode, onPause?: (state: any, tag: string) => Promise<void>): Promise<{ end: any; pauses: string[]; bad: string | null }> {
	const plan = freeze(mkPlan(steps)); const int = freeze(intent(run)); const pauses: string[] = [];
	let t = await X.startRun(int, plan, run, 'slug');
	for (let guard = 0; t.type === 'paused'; guard++) {
		if (guard > 20) return { end: t, pauses, bad: 'pauses for ever' };
		let st = t.state; const i = st.nextStepIndex; const p = st.pause; const id = plan.steps[i]?.id;
		if (!p || p.stepId !== id || p.runner !== plan.steps[i].runner || p.userTurn !== `turn ${id}` || p.prompt !== `ask ${id} ${p.schema?.n}` || canon(p.preparedBlob ?? null) !== canon(blobOf(KINDS[steps[i]!.kind]![p.schema.n]!, id, p.schema.n, run) ?? null)) return { end: t, pauses, bad: `the pause at ${id} carries ${canon(p)}` };
		if (canon(st.plan) !== canon(plan) || canon(st.intent) !== canon(int) || st.runId !== run) return { end: t, pauses, bad: `the paused state at ${id} does not carry its own plan, intent and run id` };
		pauses.push(`${id}#${p.schema.n}`);
		if (mode !== 'direct') st = JSON.parse(JSON.stringify(st)); freeze(st);
		const ans = freeze({ reply: `${id}#${p.schema.n + 1}` });
		if (onPause) await onPause(st, pauses[pauses.length - 1]!);
		if (mode === 'twice') { const keep = trace.length; const a = await X.resumeRun(st, ans, 'slug'); trace.length = keep; t = await X.resumeRun(st, ans, 'slug'); if (canon(a) !== canon(t)) return { end: t, pauses, bad: `answering ${id} twice from the same state gave ${canon(a)} and then ${canon(t)}` }; }
		else t = await X.resumeRun(st, ans, 'slug');
	}
	return { end: t, pauses, bad: null };
}
const endBad = (end: any, w: Want): string | null => {
	if (end.type !== w.type) return `ended as ${canon(end).slice(0, 200)}, expected ${w.type}`;
	if (w.type === 'complete') return canon(end.stepOutputs) === canon(w.outs) ? null : `outputs ${canon(end.stepOutputs)}, expected ${canon(w.outs)}`;
	if (end.stepId !== w.step || (w.code && end.code !== w.code) || (w.retryable !== undefined && end.retryable !== w.retryable) || !end.message) return `error ${canon(end)}, expected ${canon(w)}`;
	return null;
};
const name = (s: St[]): string => s.map(x => `${x.kind}(${PARAMS[x.par]!.n})`).join(' > ');
async function one(chk: Check, steps: St[], mode: Mode): Promise<void> {
	const w = spec(steps, 'r1'); trace = []; maxActive = 0; const f = ST.runLogPathFor('slug', 'wf', 'r1'); rmSync(f, { force: true }); chk.evaluations++;
	const bad = async (): Promise<string | null> => {
		let r; try { r = await drive(steps, 'r1', mode); } catch (e) { return `failed outside the result: ${(e as Error).message}`; }
		if (r.bad) return r.bad;
		const e = endBad(r.end, w.end); if (e) return e;
		if (canon(r.pauses) !== canon(w.pauses)) return `paused at ${r.pauses}, expected ${w.pauses}`;
		if (canon(trace) !== canon(w.trace)) { const i = w.trace.findIndex((t, k) => canon(t) !== canon(trace[k])); return `runner call ${i < 0 ? w.trace.length : i} was ${canon(trace[i < 0 ? w.trace.length : i] ?? null)}, expected ${canon(w.trace[i] ?? null)}`; }
		if (maxActive > 1) return 'two steps ran at the same time';
		if (mode !== 'twice') { const log = (existsSync(f) ? readFileSync(f, 'utf8') : '').split('\n').filter(Boolean).map(l => JSON.parse(l)).map(l => `${l.event} ${l.stepId}`); if (canon(log) !== canon(w.log)) return `the run log records ${log}, expected ${w.log}`; }
		return null;
	};
	const b = await bad(); chk.transitions += w.trace.length; if (b) chk.violation(`${b.replace(/["{].*|s\d.*/, '').slice(0, 50)}`, `plan ${name(steps)} (${mode}): ${b}`, { steps, mode });
	chk.nontrivial += w.pauses.length > 0 ? 1 : 0;
}
async function work(chk: Check, mine: (i: number) => boolean): Promise<void> {
	X = await repo('src/workflow/executor.ts'); ST = await repo('src/workflow/storage.ts'); register(); let k = 0;
	const kinds = Object.keys(KINDS);
	// every plan of up to three steps: kinds x parameters of the last two
	for (let n = 0; n <= (THOROUGH ? 4 : 3); n++) for (const ks of sequences(kinds.length, n)) {
		const early = ks.slice(0, -1).findIndex(i => ['err', 'thr', 'pauseErr', 'pauseThr', 'pause2thr', 'nofin', 'none'].includes(kinds[i]!)); if (early >= 0 && early < n - 2) continue;
		for (const [pi, p] of PARAMS.entries()) {
			if (n < 3 && p.n === 'own step' && n === 0) continue; if (!mine(k++)) continue;
			const steps = ks.map((i, s): St => ({ kind: kinds[i]!, par: s === n - 1 ? pi : s === n - 2 && n > 2 ? (pi * 3 + 2) % 5 : 0 }));
			if (n === 0 && pi > 0) continue;
			for (const mode of (n < 3 || pi < 5 ? ['direct', 'stored', 'twice'] : ['stored']) as Mode[]) await one(chk, steps, mode);
		}
	}
	// placeholder sweep on the exported resolver: every path of up to four segments over a value tree
	const tree = { a: { b: [{ c: 1 }, [10, 20], null], 'k-1': 'x', 0: 'zero' }, s: 'txt', z: null, f: false, l: [] as any[] }; const segs = ['a', 'b', 'c', 'k-1', 's', 'z', 'f', 'l', '0', '1', '2', 'length', '__proto__', 'constructor', 'hasOwnProperty'];
	for (let n = 1; n <= 4; n++) for (const q of sequences(segs.length, n)) {
		if (!mine(k++)) continue; const ss = q.map(i => segs[i]!); const forms = [ss.join('.'), ss.map((s, i) => (/^\d+$/.test(s) && i > 0 ? `[${s}]` : (i ? '.' : '') + s)).join('')];
		for (const form of new Set(forms)) {
			let want: any = UNRES; try { want = path(tree, ss); } catch { /* unresolvable */ }
			let got: any = UNRES; try { got = X.substitutePlaceholders({ v: [`$s12.${form}`] }, { s12: tree, s1: { a: 'wrong' } }).v[0]; } catch { /* refused */ }
			chk.evaluations++; if (got === UNRES ? want !== UNRES : want === UNRES || canon(got) !== canon(want)) chk.violation('placeholder', `$s12.${form} resolves to ${got === UNRES ? 'an error' : String(canon(got))}, expected ${want === UNRES ? 'an error' : canon(want)}`, { form });
		}
	}
	// resuming what is not paused there, with a runner that disappeared, and interleaving two runs over the same runners
	const pk = ['out', 'pause', 'pause2', 'pauseErr', 'pauseThr'];
	for (const [a, b, c] of product(pk, pk, pk)) {
		if (!mine(k++)) continue; const s1: St[] = [{ kind: a!, par: 0 }, { kind: b!, par: 3 }], s2: St[] = [{ kind: c!, par: 1 }, { kind: 'pause', par: 2 }];
		trace = []; const [r1, r2] = await Promise.all([drive(s1, 'r1', 'stored').catch(e => ({ end: null, pauses: [], bad: `failed: ${e.message}` })), drive(s2, 'r2', 'direct').catch(e => ({ end: null, pauses: [], bad: `failed: ${e.message}` }))]); chk.evaluations++;
		for (const [r, s, run] of [[r1, s1, 'r1'], [r2, s2, 'r2']] as const) { const w = spec(s, run); const e = r.bad ?? endBad(r.end, w.end) ?? (canon(trace.filter(t => t.run === run)) !== canon(w.trace) ? 'steps of the other run leaked in' : null); if (e) chk.violation('two-runs', `runs of ${name(s1)} and ${name(s2)} at the same time: ${run} ${e}`, { s1, s2 }); }
		await drive(s1, 'r1', 'stored', async st => {
			const probe = async (what: string, s: any): Promise<void> => { const n0 = trace.length; let r: any; try { r = await X.resumeRun(s, { reply: 'x' }, 'slug'); } catch (e) { r = { type: 'threw', m: (e as Error).message }; } chk.evaluations++; if (r.type !== 'error') chk.violation('bad-resume', `resuming ${what} gave ${canon(r).slice(0, 150)} instead of an error result`, { s1 }); if (trace.length !== n0) chk.violation('bad-resume', `resuming ${what} ran a step`, { s1 }); trace.length = n0; };
			const { pause, ...rest } = st; await probe('a state that is not paused', rest); await probe('a state whose pause names another step', { ...st, pause: { ...pause, stepId: 's7' } }); await probe('a state beyond the plan', { ...st, nextStepIndex: 9 });
			if (st.nextStepIndex > 0) await probe('a state set back to the first step', { ...st, nextStepIndex: 0 });
			X._clearRunnerRegistryForTests(); await probe('a run whose runner is gone', st); register();
		}).catch(e => chk.violation('bad-resume', `plan ${name(s1)} failed outside the result: ${e.message}`, { s1 }));
	}
	// duplicate registration is refused
	try { X.registerRunner({ id: 'out', workflow: 'wf', run: async () => ({ type: 'output', output: 'other' }) }); chk.violation('dup', 'a second runner of the same name was accepted', {}); } catch { /* refused */ }
}
main(async () => {
	const chk = new Check('C16', 'model_checking');
	chk.assumptions.push('runners are stand-ins covering every outcome of run and finalize');
	await chk.sharded(m => work(chk, m));
	if (SHARD < 0) { chk.states = chk.evaluations; chk.traces = chk.evaluations; chk.rule = 'every plan of up to 3 (thorough 4) steps over 16 runner behaviours x 14 parameter shapes x 3 ways of resuming; every placeholder path of up to 4 segments'; chk.sample({ kinds: KINDS, params: PARAMS.map(p => p.n) }); chk.finish(); }
});
