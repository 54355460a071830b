// C19: analyze plan execution — every task once, in order, with exactly its declared inputs; failures stay with their dependants; every finished task is on disk.
import { Check, main, THOROUGH, canon, SHARD, repo, SCRATCH } from '../lib/mc.mts';
import { readFileSync, rmSync } from 'node:fs';
import { join } from 'node:path';

let X: any;
type Out = 'ok' | 'throw' | 'missing' | 'extra' | 'absent' | 'undef' | 'reject';
interface T { kind: 'leaf'; out: Out; eats: string[]; makes: string[] }
interface N { kind: 'planner'; eats: string[]; child: Plan | 'gone' | 'error'; makes?: string }
type Task = T | N; type Plan = Task[];
interface Ev { k: string; path: string; id: string; index?: number; total?: number; status?: string; up?: any; run?: string; intent?: any; ctx?: string }
let trace: Ev[] = [], uid = 0, brokenListener = -1, nEv = 0, activeN = 0, overlap = false, diskBad = '';
const INTENT = { target: 'code', scope: 'XS', focused: false, scopeRef: { kind: 'repo', value: '/r' }, reasoning: 'because' };
const tid = (i: number): string => `t${String(i + 1).padStart(2, '0')}`;
const val = (path: string, id: string, name: string): any => ({ from: `${path}/${id}`, name, list: [1, { k: null }] });
function tree(p: Plan, path: string): any {
	const children = new Map(), childErrors = new Map();
	const tasks = p.map((t, i) => {
		const taskId = tid(i), at = path ? `${path}.${taskId}` : taskId;
		if (t.kind === 'planner') {
			if (t.child === 'error') childErrors.set(taskId, new Error(`cap hit ${at}`));
			else if (t.child !== 'gone') children.set(taskId, tree(t.child, at));
			return { taskId, template: 'deep', kind: 'planner', params: { childIntent: {} }, produces: [t.makes ?? (i < p.length - 1 ? `sub${i}` : 'report')], consumes: t.eats, rationale: 'r' };
		}
		return { taskId, template: t.out === 'absent' ? 'nobody' : `leaf-${t.out}`, kind: 'leaf', params: { path, n: i }, produces: t.makes, ...(t.eats.length || i % 2 ? { consumes: t.eats } : {}), rationale: 'r' };
	});
	return { plan: { planId: `p${path}`, goal: 'g', target: 'code', scope: 'XS', tasks, reasoning: 'r' }, children, childErrors };
}
function register(): void {
	X._resetRuntimeRegistryForTests();
	for (const out of ['ok', 'throw', 'missing', 'extra', 'undef', 'reject'] as Out[]) X.registerTemplateRuntime({
		templateId: `leaf-${out}`, execute(a: any): Promise<any> {
			const path = a.task.params.path, id = a.task.taskId; if (activeN++ > 0) overlap = true;
			trace.push({ k: 'exec', path, id, run: a.runId, up: Object.fromEntries(a.upstreamOutputs), intent: a.intent });
			if (out === 'throw') { activeN--; throw new Error(`boom ${path}/${id}`); }
			return new Promise((res, rej) => setImmediate(() => {
				activeN--; trace.push({ k: 'ran', path, id });
				if (out === 'reject') { rej(new Error(`boom ${path}/${id}`)); return; }
				const m = new Map<string, any>(); for (const n of a.task.produces) m.set(n, out === 'undef' ? null : val(path, id, n));
				if (out === 'missing') m.delete(a.task.produces.at(-1)); if (out === 'extra') m.set('surplus', 1);
				res({ outputs: m });
			}));
		},
	});
}
interface Want { tr: Ev[]; per: Map<string, { status: string; outs?: any }>; report: any; failed: string[]; kids: Map<string, Want>; done: number }
/** what executing the plan must do, from the plan alone */
function spec(p: Plan, path: string): Want {
	const tr: Ev[] = [], per: Want['per'] = new Map(), kids: Want['kids'] = new Map(), failed: string[] = []; const outs: Record<string, any> = {}; let report: any;
	p.forEach((t, i) => {
		const id = tid(i), at = path ? `${path}.${id}` : id;
		tr.push({ k: 'task-started', path, id, index: i + 1, total: p.length }); let status = 'ok', got: any;
		if (t.eats.some(n => !Object.hasOwn(outs, n))) status = 'skipped-dependency-unavailable';
		else if (t.kind === 'planner') {
			if (typeof t.child === 'string') status = 'failed';
			else { const w = spec(t.child, at); kids.set(id, w); tr.push(...w.tr); if (w.report === undefined) status = 'failed'; else got = { [t.makes ?? (i < p.length - 1 ? `sub${i}` : 'report')]: w.report }; }
		} else {
			if (t.out !== 'absent') { tr.push({ k: 'exec', path, id, up: Object.fromEntries(t.eats.map(n => [n, outs[n]])) }); if (t.out !== 'throw') tr.push({ k: 'ran', path, id }); }
			if (t.out === 'ok') got = Object.fromEntries(t.makes.map(n => [n, val(path, id, n)])); else if (t.out === 'undef') got = Object.fromEntries(t.makes.map(n => [n, null])); else status = 'failed';
		}
		if (status === 'ok') { Object.assign(outs, got); if (i === p.length - 1) report = got['report']; } else failed.push(id);
		per.set(id, { status, outs: got }); tr.push({ k: 'task-completed', path, id, status });
	});
	return { tr, per, report, failed, kids, done: p.length - failed.length };
}
const fmt = (e: Ev): string => `${e.k} ${e.path}/${e.id}${e.index !== undefined ? ` ${e.index}of${e.total}` : ''}${e.status ? ` ${e.status}` : ''}${e.up !== undefined ? ` ${canon(e.up)}` : ''}`;
const recOf = (r: any): string => canon({ id: r?.taskId, status: r?.status, outs: r?.outputs, kind: r?.kind, prod: r?.produces, tpl: r?.template, failed: typeof r?.error === 'string' && r.error.length > 0 });
function compare(w: Want, got: any, p: Plan, nodes: any, run: string, path: string): string | null {
	const where = path || 'root plan', r = got.root;
	if (canon([...r.perTask.keys()].sort()) !== canon([...w.per.keys()].sort())) return `${where}: results for ${canon([...r.perTask.keys()])}`;
	for (const [i, t] of nodes.plan.tasks.entries()) {
		const id = t.taskId, x = w.per.get(id)!, rec = r.perTask.get(id);
		const want = canon({ id, status: x.status, outs: x.outs, kind: t.kind, prod: t.produces, tpl: t.template, failed: x.status !== 'ok' });
		if (recOf(rec) !== want) return `${where}: task ${id} recorded as ${recOf(rec)}, expected ${want}`;
		const disk = path ? X.readTaskOutput(run, id, path) : X.readTaskOutput(run, id);
		if (recOf(disk) !== want) return `${where}: task ${id} is on disk as ${recOf(disk)}, expected ${want}`;
		if (canon(disk) !== canon(rec)) return `${where}: task ${id}: disk record differs from the result`;
		const tk = p[i]!;
		if (tk.kind === 'leaf' && (tk.out === 'throw' || tk.out === 'reject') && x.status === 'failed' && !rec.error.includes(`boom ${path}/${id}`)) return `${where}: the error of ${id} does not say why: ${rec.error}`;
		if (tk.kind === 'planner' && tk.child === 'error' && x.status === 'failed' && !rec.error.includes('cap hit')) return `${where}: the error of ${id} hides the planning error: ${rec.error}`;
		if (x.status.startsWith('skipped') && !(tk.eats.some(n => rec.error.includes(n)))) return `${where}: skipped task ${id} does not name an unavailable input: ${rec.error}`;
	}
	if (canon(r.finalReport) !== canon(w.report)) return `${where}: final report ${canon(r.finalReport)}, expected ${canon(w.report)}`;
	if (r.tasksCompleted !== w.done || canon(r.tasksFailed.map((f: any) => f.taskId)) !== canon(w.failed)) return `${where}: counts ${r.tasksCompleted} / ${canon(r.tasksFailed)} instead of ${w.done} / ${canon(w.failed)}`;
	for (const f of r.tasksFailed) if (f.reason !== r.perTask.get(f.taskId).error) return `${where}: reason of ${f.taskId} differs from its record`;
	if (canon([...got.children.keys()].sort()) !== canon([...w.kids.keys()].sort())) return `${where}: child results for ${canon([...got.children.keys()])}, expected ${canon([...w.kids.keys()])}`;
	for (const [id, cw] of w.kids) { const i = nodes.plan.tasks.findIndex((t: any) => t.taskId === id); const bad = compare(cw, got.children.get(id), (p[i] as N).child as Plan, nodes.children.get(id), run, path ? `${path}.${id}` : id); if (bad) return bad; }
	return null;
}
async function one(chk: Check, p: Plan, broken: number): Promise<string | null> {
	const run = `run-${Math.max(SHARD, 0)}-${uid++ % 8}`; rmSync(join(SCRATCH, 'home/.insrc/analyze', run), { recursive: true, force: true });
	trace = []; brokenListener = broken; nEv = 0; overlap = false; activeN = 0; diskBad = '';
	const node = tree(p, ''), before = canon(node.plan), seenDone: [string, string][] = [];
	const want = spec(p, ''); chk.evaluations++; if (want.failed.length || want.kids.size) chk.nontrivial++;
	let got: any;
	try {
		got = await X.runExecutor({ tree: node, intent: INTENT, runId: run, onTaskEvent: (e: any) => {
			trace.push({ k: e.type, path: e.parentTaskPath ?? '', id: e.taskId, ...(e.type === 'task-started' ? { index: e.index, total: e.total } : { status: e.status }) });
			// a crash right now must find every task reported complete on disk
			if (e.type === 'task-completed') seenDone.push([e.parentTaskPath ?? '', e.taskId]);
			for (const [pp, id] of seenDone) { const d = pp ? X.readTaskOutput(run, id, pp) : X.readTaskOutput(run, id); const exp = lookup(want, pp, id); if (!diskBad && (d === null || d.status !== exp.status || canon(d.outputs) !== canon(exp.outs))) diskBad = `after ${e.type} of ${e.parentTaskPath ?? ''}/${e.taskId} the finished task ${pp}/${id} is on disk as ${canon(d)?.slice(0, 120)}`; }
			if (nEv++ === brokenListener) throw new Error('listener broke');
		} });
	} catch (e) { return `runExecutor threw: ${(e as Error).message}`; }
	chk.transitions += trace.length; chk.states++;
	if (overlap) return 'two tasks ran at the same time';
	const a = trace.map(fmt), b = want.tr.map(fmt);
	for (let i = 0; i < Math.max(a.length, b.length); i++) if (a[i] !== b[i]) return `step ${i}: ${a[i] ?? 'nothing'} happened, expected ${b[i] ?? 'nothing'}`;
	for (const e of trace) if (e.k === 'exec' && (e.run !== run || canon(e.intent) !== canon(INTENT))) return `task ${e.path}/${e.id} was given another run id or intent`;
	if (diskBad) return diskBad;
	if (canon(node.plan) !== before) return 'the plan was modified';
	return compare(want, got, p, node, run, '');
}
function lookup(w: Want, path: string, id: string): { status: string; outs?: any } { let c = w; for (const s of path ? path.split('.') : []) c = c.kids.get(s)!; return c.per.get(id)!; }

/** every list of n leaf tasks with the given outcomes: task i may consume any set of earlier outputs (or an unknown one) */
function* plans(n: number, outs: Out[], ghost: boolean, dup = false): Generator<Plan> {
	const rec = function* (pre: T[], names: string[]): Generator<Plan> {
		if (pre.length === n) { yield pre; return; }
		const i = pre.length, pool = ghost ? [...new Set(names), 'ghost'] : [...new Set(names)];
		const makes = i === n - 1 ? ['report'] : dup ? ['o'] : i === 1 ? ['o1', 'o1b'] : [`o${i}`];
		for (let m = 0; m < 1 << pool.length; m++) for (const out of outs) yield* rec([...pre, { kind: 'leaf', out, eats: pool.filter((_, k) => m >> k & 1), makes }], [...names, ...makes]);
	};
	yield* rec([], []);
}
const ALL: Out[] = ['ok', 'throw', 'missing', 'extra', 'absent', 'undef', 'reject'];
function* family(): Generator<[Plan, number]> {
	for (let n = 1; n <= 2; n++) for (const p of plans(n, ALL, true)) yield [p, -1];
	for (const p of plans(3, THOROUGH ? ALL : ['ok', 'throw', 'missing', 'extra', 'absent'], false)) yield [p, -1];
	for (const p of plans(4, THOROUGH ? ['ok', 'reject', 'missing', 'undef'] : ['ok', 'reject'], false)) yield [p, -1];
	if (THOROUGH) for (const p of plans(5, ['ok', 'throw'], false)) yield [p, -1];
	for (const p of plans(4, ['ok'], false, true)) yield [p, -1];
	// nesting: children take every small shape, tasks after the planner use or ignore its result
	const kids: (Plan | 'gone' | 'error')[] = ['gone', 'error', ...plans(1, ['ok', 'throw', 'undef', 'absent'], false), ...plans(2, ['ok', 'reject', 'missing'], true)];
	const L = (out: Out, eats: string[], makes: string[]): T => ({ kind: 'leaf', out, eats, makes });
	for (const k of kids) for (const first of ['ok', 'throw'] as Out[]) for (const e of [[], ['o0']]) for (const use of [[], ['sub1'], ['o0', 'sub1']]) for (const last of ['ok', 'reject'] as Out[])
		yield [[L(first, [], ['o0']), { kind: 'planner', eats: e, child: k }, L(last, use, ['report'])], -1];
	for (const k of kids) yield [[L('ok', [], ['o0']), { kind: 'planner', eats: [], child: k }], -1];
	// tasks before the last may produce a value called report too; only the last task's is the plan's
	for (const k of [...plans(1, ['ok', 'throw'], false), 'gone'] as (Plan | 'gone')[]) for (const last of ALL) for (const eats of [[], ['report']]) for (const makes of [['report'], ['other', 'report']]) {
		yield [[{ kind: 'planner', eats: [], child: k, makes: 'report' }, L(last, eats, makes)], -1];
		yield [[{ kind: 'planner', eats: [], child: k, makes: 'report' }, { kind: 'planner', eats, child: [L(last, [], makes)], makes: 'report' }], -1];
	}
	for (const a of ['ok', 'throw'] as Out[]) for (const b of ['ok', 'missing'] as Out[]) for (const c of ['ok', 'throw', 'absent'] as Out[]) for (const eats of [[], ['report']]) yield [[L(a, [], ['report']), L(b, eats, ['report', 'x']), L(c, eats, ['report'])], -1];
	// the child cannot see names of its parent
	yield [[L('ok', [], ['o0']), { kind: 'planner', eats: ['o0'], child: [L('ok', ['o0'], ['report'])] }, L('ok', ['sub1'], ['report'])], -1];
	// two levels and two siblings
	const small: Plan[] = [...plans(2, ['ok', 'throw'], false)];
	for (const k1 of small) for (const k2 of [...small, 'gone', 'error'] as (Plan | 'gone' | 'error')[]) {
		yield [[{ kind: 'planner', eats: [], child: k1 }, { kind: 'planner', eats: [], child: k2 }, L('ok', ['sub0'], ['o2']), L('ok', ['sub0', 'sub1'], ['report'])], -1];
		yield [[L('ok', [], ['o0']), { kind: 'planner', eats: [], child: [L('ok', [], ['a']), { kind: 'planner', eats: ['a'], child: k2 }, ...k1.map(t => ({ ...t, eats: t.eats })) as T[]] }, L('ok', ['sub1'], ['report'])], -1];
	}
	// a listener that throws at any single event changes nothing
	const ref: Plan[] = [[L('ok', [], ['o0']), { kind: 'planner', eats: ['o0'], child: small[0]! }, L('throw', [], ['x']), L('ok', ['x'], ['y']), L('ok', ['o0', 'sub1'], ['report'])]];
	for (const p of ref) for (let b = 0; b < 14; b++) yield [p, b];
	// task ids past t99
	yield [[...Array.from({ length: 101 }, (_, i) => L('ok', i ? [`o${i - 1}`] : [], [`o${i}`])), L('ok', ['o100'], ['report'])], -1];
}
main(async () => {
	const chk = new Check('C19', 'exploration');
	X = await repo('src/analyze/executor/index.ts'); register();
	chk.rule = 'every plan in the bound, executed once and compared event by event with a specification interpreter';
	chk.extra['bounds'] = 'plans of 1-2 tasks x 7 outcomes x all input sets incl. unknown; 3 tasks x 5 outcomes; 4 tasks x 2 outcomes x all input sets; nested plans (1-2 tasks, 2 levels, 2 siblings, missing, failed); listener failure at every event; disk checked at every event (crash points)';
	await chk.sharded(async mine => {
		let i = 0;
		for (const [p, b] of family()) {
			if (!mine(i++)) continue;
			const bad = await one(chk, p, b);
			if (bad) { chk.violation(`plan ${JSON.stringify(p)} b${b}`.slice(0, 400), `${bad} — plan ${JSON.stringify(p).slice(0, 400)}`, { plan: p, brokenListener: b }); return; }
			if (i % 97 === 1) chk.sample({ plan: JSON.stringify(p).slice(0, 200), trace: trace.map(fmt).slice(0, 4) });
		}
	});
	chk.assumptions.push('runtimes return JSON values');
	chk.finish();
});
