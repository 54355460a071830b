// C20: an accepted analyze plan satisfies every plan invariant; a valid plan is accepted; retries, nesting limits and the audit trail are exact.
import { Check, main, THOROUGH, canon, SHARD, repo, SCRATCH, sequences, product } from '../lib/mc.mts';
import { readFileSync, rmSync, existsSync, readdirSync, statSync } from 'node:fs';
import { join } from 'node:path';

let V: any, P: any, R: any;
const KEY = { type: 'object', additionalProperties: false, required: ['k'], properties: { k: { type: 'string' }, n: { type: 'integer', minimum: 1 } } };
const tpl = (id: string, target: string, kind: string, family: string, produces: string[], inputSchema: any, agg = false): any => ({ id, target, kind, family, revision: '1', description: `d ${id}`, inputSchema, produces, ...(agg ? { isAggregator: true } : {}) });
const CAT = [
	tpl('la', 'code', 'leaf', 'x', ['a'], KEY), tpl('lb', 'code', 'leaf', 'x', ['b', 'c'], { type: 'object' }), tpl('dd', 'data', 'leaf', 'x', ['d'], { type: 'object' }),
	tpl('pl', 'code', 'planner', 'subrun', ['report'], { type: 'object', required: ['childIntent'] }), tpl('ag', 'code', 'leaf', 'aggregate', ['report'], { type: 'object' }, true),
];
const byId = new Map(CAT.map(t => [t.id, t]));
const BAND: any = { XS: [3, 8], S: [10, 20], M: [20, 40], L: [30, 60], XL: [40, 80] };
const INTENT: any = { target: 'code', scope: 'XS', focused: true, scopeRef: { kind: 'repo', value: '/r' }, reasoning: 'because' };
const tid = (i: number): string => { const n = i + 1; return n < 10 ? `t0${n}` : `t${n}`; };
const natural = (t: string, i: number, consumes?: string[]): any => ({ taskId: tid(i), template: t, kind: byId.get(t)?.kind ?? 'leaf', params: t === 'la' ? { k: 'v' } : t === 'pl' ? { childIntent: INTENT } : {}, produces: byId.get(t)?.produces ?? ['z'], ...(consumes ? { consumes } : {}), rationale: 'a rationale long enough' });
const mk = (tasks: any[], over: any = {}): any => ({ planId: 'p', goal: 'g', target: 'code', scope: 'XS', tasks, reasoning: 'x'.repeat(50), ...over });
/** the invariants a plan violates, judged from their definitions */
function broken(p: any, focused: boolean, child: boolean): Set<string> {
	const s = new Set<string>(); const ts = p.tasks as any[];
	if (ts.length === 0) s.add('INV-1');
	const made = new Set<string>();
	ts.forEach((t, i) => {
		if (t.taskId !== tid(i)) s.add('INV-2');
		const m = byId.get(t.template);
		if (!m) s.add('INV-3');
		else {
			if (p.target !== 'generic' && m.target !== p.target) s.add('INV-4');
			if (t.template === 'la' && !(typeof t.params.k === 'string' && Object.keys(t.params).every(k => k === 'k' || k === 'n') && (t.params.n === undefined || (Number.isInteger(t.params.n) && t.params.n >= 1)))) s.add('INV-5');
			if (t.template === 'pl' && !('childIntent' in t.params)) s.add('INV-5');
			if (canon([...t.produces].sort()) !== canon([...m.produces].sort())) s.add('INV-6');
			if (t.kind !== m.kind) s.add('INV-8');
		}
		for (const c of t.consumes ?? []) if (!made.has(c)) { s.add('INV-7'); s.add('INV-10'); s.add('INV-11'); }
		for (const o of t.produces) made.add(o);
		if (nests(t.params)) s.add('INV-9');
		if (t.rationale.trim().length < 20) s.add('INV-14');
	});
	const ags = ts.flatMap((t, i) => t.template === 'ag' ? [i] : []);
	if (ags.length !== 1 || ags[0] !== ts.length - 1) s.add('INV-12');
	const [lo, hi] = BAND[p.scope]; if (ts.length < (focused ? Math.floor(lo / 2) : lo) || ts.length > hi) s.add('INV-13');
	if (p.reasoning.trim().length < 50) s.add('INV-14');
	if (child ? !p.parentTaskPath : p.parentTaskPath !== undefined) s.add('INV-15');
	return s;
}
const nests = (v: any): boolean => Array.isArray(v) ? v.some(e => (e !== null && typeof e === 'object' && !Array.isArray(e) && ('template' in e || 'taskId' in e)) || nests(e)) : v !== null && typeof v === 'object' ? Object.values(v).some(nests) : false;
function judge(p: any, focused = true, child = false): string | null {
	const want = broken(p, focused, child), before = canon(p); let got: any;
	try { got = V.validatePlan(p, CAT, { focused, isChildPlan: child }); } catch (e) { return `validatePlan threw ${(e as Error).message}`; }
	if (canon(p) !== before) return 'validatePlan changed the plan';
	if (got === null) return want.size ? `accepted although it violates ${[...want].join(', ')}` : null;
	if (!want.size) return `rejected (${got.invariantId}: ${got.message}) although every invariant holds`;
	if (!want.has(got.invariantId)) return `rejected for ${got.invariantId} (${got.message}) but the violated invariants are ${[...want].join(', ')}`;
	if (typeof got.message !== 'string' || !got.message.length) return 'rejection without a message';
	return null;
}
const shape = (p: any): string => p.tasks.map((t: any) => `${t.taskId}:${t.template}/${t.kind[0]}<${(t.consumes ?? []).join('+')}>${t.produces.join('+')}`).join(' ');
/** every small plan over the catalogue, with every interesting set of inputs */
function* structural(): Generator<[any, boolean, boolean, string]> {
	const ids = ['la', 'lb', 'pl', 'ag', 'dd', 'xx'], ins: (string[] | undefined)[] = [undefined, ['a'], ['b'], ['report'], ['c', 'a'], ['report', 'b'], ['ghost']];
	yield [mk([]), true, false, 'empty'];
	const alt = [...product<any>(ids, ins)] as [string, string[] | undefined][];
	for (const n of [1, 2]) for (const q of sequences(alt.length, n)) yield [mk(q.map(k => alt[k]!).map(([t, c], i) => natural(t, i, c))), true, false, 'small'];
	// three and four tasks: every choice in front of a final aggregator, every input set for it
	const front = [...product<any>(['la', 'lb', 'pl', 'ag'], ins)] as [string, string[] | undefined][];
	for (const a of front) for (const b of front) for (const fin of ins) yield [mk([natural(a[0], 0, a[1]), natural(b[0], 1, b[1]), natural('ag', 2, fin)]), true, false, 'three'];
	const core = (['la', 'lb', 'pl'] as string[]).flatMap(t => (THOROUGH ? ins : [undefined, ['a'], ['report'], ['c', 'a']]).map(c => [t, c] as [string, string[] | undefined]));
	for (const a of core) for (const b of core) for (const c of core) for (const fin of [undefined, ['report'], ['report', 'b'], ['a']]) yield [mk([a, b, c].map((x, i) => natural(x[0], i, x[1])).concat(natural('ag', 3, fin))), true, false, 'four'];
}
type Mut = [string, (p: any) => void];
const at = (i: number, f: (t: any, p: any) => void): ((p: any) => void) => p => { if (p.tasks[i]) f(p.tasks[i], p); };
function mutations(): Mut[] {
	const ms: Mut[] = [];
	for (const i of [0, 1, 2]) {
		for (const id of ['t1', 't00', 't04', 'T01', '', 't001', tid(i === 0 ? 1 : 0)]) ms.push([`id${i}=${id}`, at(i, t => { t.taskId = id; })]);
		for (const k of ['leaf', 'planner']) ms.push([`kind${i}=${k}`, at(i, t => { t.kind = k; })]);
		for (const pr of [['a'], ['a', 'b'], ['c', 'b'], ['b', 'c', 'c'], ['b', 'b'], ['b'], [], ['report'], ['report', 'report']]) ms.push([`produces${i}=${pr}`, at(i, t => { t.produces = pr; })]);
		for (const c of [['a', 'b', 'c'], ['report'], ['d'], [], ['c']]) ms.push([`eats${i}=${c}`, at(i, t => { t.consumes = c; })]);
		for (const pa of [{}, { k: 1 }, { k: 'v', n: 0 }, { k: 'v', n: 1.5 }, { k: 'v', n: 1 }, { k: 'v', z: 1 }, { childIntent: null }, { k: 'v', l: [{ taskId: 't01' }] }, { childIntent: { deep: { er: [[{ template: 'la' }]] } } }, { l: [{ a: [{ x: 1 }, { taskId: 1 }] }] }, { taskId: 'x' }, { o: { template: 'la' } }, { l: ['taskId', null, []] }, { k: 'v', tasks: [[]] }]) ms.push([`params${i}=${JSON.stringify(pa)}`, at(i, t => { t.params = pa; })]);
		for (const r of ['x'.repeat(19), 'x'.repeat(20), ` ${'x'.repeat(19)} `, `  ${'x'.repeat(20)}\n`, ' '.repeat(30), '']) ms.push([`why${i}=${r.length}`, at(i, t => { t.rationale = r; })]);
		for (const tm of ['la', 'lb', 'pl', 'ag', 'dd', 'xx', 'LA']) ms.push([`tpl${i}=${tm}`, at(i, t => { t.template = tm; })]);
		ms.push([`drop${i}`, p => { p.tasks.splice(i, 1); }], [`dup${i}`, p => { p.tasks.splice(i, 0, structuredClone(p.tasks[i] ?? p.tasks[0])); p.tasks.forEach((t: any, k: number) => { t.taskId = tid(k); }); }]);
	}
	for (const r of ['x'.repeat(49), 'x'.repeat(50), ` ${'x'.repeat(49)} `, ' '.repeat(60), '']) ms.push([`reason=${r.length}/${r.trim().length}`, p => { p.reasoning = r; }]);
	for (const t of ['code', 'data', 'infra', 'generic', 'docs']) ms.push([`target=${t}`, p => { p.target = t; }]);
	for (const s of ['XS', 'S', 'M', 'L', 'XL']) ms.push([`scope=${s}`, p => { p.scope = s; }]);
	for (const q of ['', 't01', 't01.t02']) ms.push([`parent=${q}`, p => { p.parentTaskPath = q; }]);
	for (const [i, j] of [[0, 1], [1, 2], [0, 2]] as [number, number][]) ms.push([`swap${i}${j}`, p => { if (p.tasks[i] && p.tasks[j]) { [p.tasks[i], p.tasks[j]] = [p.tasks[j], p.tasks[i]]; p.tasks.forEach((t: any, k: number) => { t.taskId = tid(k); }); } }], [`swap${i}${j}keep`, p => { if (p.tasks[i] && p.tasks[j]) [p.tasks[i], p.tasks[j]] = [p.tasks[j], p.tasks[i]]; }]);
	return ms;
}
const BASES = [() => mk([natural('la', 0), natural('lb', 1, ['a']), natural('ag', 2, ['a', 'c'])]), () => mk([natural('lb', 0), natural('pl', 1, ['b']), natural('ag', 2, ['report', 'c'])])];
function* mutated(): Generator<[any, boolean, boolean, string]> {
	const ms = mutations();
	for (const b of BASES) {
		for (const f of [true, false]) for (const c of [true, false]) { yield [b(), f, c, 'base']; for (const [n, m] of ms) { const p = b(); m(p); yield [p, f, c, n]; } }
		for (let i = 0; i < ms.length; i++) for (let j = THOROUGH ? 0 : i + 1; j < ms.length; j++) { const p = b(); ms[i]![1](p); ms[j]![1](p); yield [p, j % 2 === 0, i % 3 === 0, `${ms[i]![0]} & ${ms[j]![0]}`]; }
	}
	// task-count bands, both edges of every scope, and ids past t99
	for (const [sc, [lo, hi]] of Object.entries(BAND) as [string, [number, number]][]) for (const f of [true, false]) for (const n of new Set([1, Math.floor(lo / 2) - 1, Math.floor(lo / 2), lo - 1, lo, hi, hi + 1, 99, 100, 101]))
		if (n > 0) yield [mk([...Array.from({ length: n - 1 }, (_, i) => natural(i % 2 ? 'lb' : 'la', i, i ? ['a'] : undefined)), natural('ag', n - 1, n > 1 ? ['a'] : undefined)], { scope: sc }), f, false, `${sc} x ${n}`];
}
// ------------------------------------------------------------------ planning with a scripted model
type Turn = 'good' | 'nest' | 'nest2' | 'bad' | 'bad2' | 'shape' | 'down' | 'junk';
const BUNDLE: any = { layers: { system: 's', focus: '', summary: '', structure: '', surface: '', artefacts: '', upstream: '' }, system: 's', focus: '', summary: '', structure: '', surface: '', artefacts: '', upstream: '', meta: { emptyLayers: [], citations: [] } };
function emit(t: Turn, planId: string): any {
	const g = (tasks: any[]): any => mk(tasks, { planId, parentTaskPath: 'model.says' });
	if (t === 'good') return g([natural('la', 0), natural('lb', 1, ['a']), natural('ag', 2, ['c'])]);
	if (t === 'nest') return g([natural('la', 0), natural('pl', 1, ['a']), natural('ag', 2, ['report'])]);
	if (t === 'nest2') return g([natural('pl', 0), natural('pl', 1), natural('ag', 2, ['report'])]);
	if (t === 'bad') return g([natural('la', 0), natural('lb', 1, ['ghost']), natural('ag', 2)]);
	if (t === 'bad2') return g([natural('la', 0), natural('ag', 1), natural('lb', 2)]);
	if (t === 'shape') return { ...g([natural('la', 0)]), extra: 1 };
	throw new Error(t === 'down' ? 'connect ECONNREFUSED 127.0.0.1:11434' : 'could not parse');
}
interface Node { path: string; plan: any; attempts: number; kids: Map<string, Node>; errs: Map<string, string> }
const NESTS: Record<string, string[]> = { nest: ['t02'], nest2: ['t01', 't02'] };
const CAPS: any = { XS: 2, S: 3, M: 4, L: 5, XL: 6 };
/** what planning must do: script[path] is the model's turns for the plan at that path (default good) */
function expectPlan(script: Record<string, Turn[]>, path: string, depth: number, cap: number, calls: string[], disk: Map<string, any>): Node | string {
	if (depth + 1 > cap) return 'MaxPlanDepthExceededError';
	const turns = script[path] ?? [], where = path || 'root';
	for (let a = 0; a < 3; a++) {
		const t = turns[a] ?? 'good'; calls.push(where);
		if (t === 'down') return 'PlanBuilderLlmUnavailableError'; if (t === 'junk' || t === 'shape') return 'PlanBuilderSchemaUnrecoverable';
		const p = emit(t, `${where}#${a}`); delete p.parentTaskPath; if (path) p.parentTaskPath = path;
		disk.set(`${where} attempt ${a + 1}`, p);
		if (t === 'bad' || t === 'bad2') { disk.set(`${where} feedback ${a + 1}`, t === 'bad' ? 'INV-7' : 'INV-12'); continue; }
		disk.set(`${where} final`, p);
		const n: Node = { path, plan: p, attempts: a + 1, kids: new Map(), errs: new Map() };
		for (const id of NESTS[t] ?? []) { const r = expectPlan(script, path ? `${path}.${id}` : id, depth + 1, cap, calls, disk); if (typeof r === 'string') n.errs.set(id, r); else n.kids.set(id, r); }
		return n;
	}
	return 'PlanBuilderExhausted';
}
let uid = 0;
async function planning(script: Record<string, Turn[]>, scope: string): Promise<string | null> {
	const run = `plan-${Math.max(SHARD, 0)}-${uid++ % 8}`; rmSync(join(SCRATCH, 'home/.insrc/analyze', run), { recursive: true, force: true });
	const wantCalls: string[] = [], disk = new Map<string, any>(); const want = expectPlan(script, '', 0, CAPS[scope], wantCalls, disk);
	const calls: string[] = []; const seen = new Map<string, number>(); let bad = '';
	const provider: any = { completeStructured: async (msgs: any[]) => {
		const user = msgs.find(m => m.role === 'user').content as string; const m = /parent task `([^`]+)`/.exec(user), path = m?.[1] ?? '';
		const where = path || 'root', a = seen.get(where) ?? 0; seen.set(where, a + 1); calls.push(where);
		// the first turn starts clean; each retry quotes the rejected plan and what was wrong with it
		const rej = msgs.filter(x => x.role === 'assistant'); if (rej.length !== a) bad ||= `attempt ${a + 1} for ${where} saw ${rej.length} earlier plans`;
		rej.forEach((x, i) => { if (!x.content.includes(`"${where}#${i}"`)) bad ||= `attempt ${a + 1} for ${where}: earlier plan ${i} is not the one the model emitted`; });
		if (a > 0) { const last = msgs.at(-1), inv = disk.get(`${where} feedback ${a}`); if (last.role !== 'user' || !last.content.includes(inv)) bad ||= `attempt ${a + 1} for ${where} was not told about ${inv}`; }
		return structuredClone(emit((script[path] ?? [])[a] ?? 'good', `${where}#${a}`));
	} };
	let got: any; let err = '';
	try { got = await R.runRecursivePlanner({ input: { intent: { ...INTENT, scope }, contextBundle: BUNDLE, catalog: CAT }, opts: { runId: run }, provider }); } catch (e) { err = (e as Error).name; }
	if (bad) return bad;
	if (canon(calls) !== canon(wantCalls)) return `the model was called for ${canon(calls)}, expected ${canon(wantCalls)}`;
	if (typeof want === 'string') { if (err !== want) return `planning ended with ${err || 'a plan'}, expected ${want}`; }
	else {
		if (err) return `planning failed with ${err}, expected a plan`;
		const cmp = (g: any, w: Node): string | null => {
			if (canon(g.plan) !== canon(w.plan)) return `plan at ${w.path || 'root'} is ${canon(g.plan).slice(0, 200)}, expected ${canon(w.plan).slice(0, 200)}`;
			if (canon([...g.children.keys()].sort()) !== canon([...w.kids.keys()].sort())) return `children of ${w.path || 'root'}: ${[...g.children.keys()]}, expected ${[...w.kids.keys()]}`;
			if (canon([...g.childErrors].map(([k, e]: any) => [k, e.name]).sort()) !== canon([...w.errs].sort())) return `failed children of ${w.path || 'root'}: ${canon([...g.childErrors].map(([k, e]: any) => [k, e.name]))}, expected ${canon([...w.errs])}`;
			for (const [k, n] of w.kids) { const b = cmp(g.children.get(k), n); if (b) return b; }
			return null;
		};
		const b = cmp(got, want); if (b) return b;
		// the accepted tree runs: nothing accepted can be skipped for a missing input
		if (V.validatePlan(got.plan, CAT, { focused: true }) !== null) return 'the accepted root plan does not validate';
	}
	// the audit trail on disk
	let files = 0; const wanted = new Set<string>();
	for (const [k, v] of disk) {
		const [where, what, n] = k.split(' '), args = { runId: run, ...(where === 'root' ? {} : { parentTaskPath: where }) };
		const f = what === 'final' ? P.planFinalPathFor(args) : what === 'attempt' ? P.planAttemptPathFor(args, Number(n)) : P.planFeedbackPathFor(args, Number(n)); wanted.add(f);
		if (!existsSync(f)) return `${k} is not on disk`; files++;
		const d = JSON.parse(readFileSync(f, 'utf8'));
		if (what === 'feedback' ? d.invariantId !== v : canon(d) !== canon(v)) return `${k} on disk is ${canon(d).slice(0, 150)}`;
		if (what === 'final' && canon(P.readPlanFinal(args)) !== canon(v)) return `${k} does not read back`;
	}
	const root = join(SCRATCH, 'home/.insrc/analyze', run);
	if (wanted.size !== files) return 'two records of the audit trail share one file';
	const all: string[] = []; const walk = (d: string): void => { if (existsSync(d)) for (const f of readdirSync(d)) { const q = join(d, f); if (statSync(q).isDirectory()) walk(q); else all.push(q); } }; walk(root);
	for (const f of all) if (!wanted.has(f)) return `unexpected file ${f.slice(root.length)} in the audit trail`;
	return null;
}
function* scripts(): Generator<[Record<string, Turn[]>, string]> {
	const ALL: Turn[] = ['good', 'nest', 'nest2', 'bad', 'bad2', 'shape', 'down', 'junk'], fin = (s: Turn[]): boolean => s.slice(0, -1).every(t => t === 'bad' || t === 'bad2');
	const seqs = [1, 2, 3].flatMap(n => [...sequences(ALL.length, n)].map(q => q.map(k => ALL[k]!))).filter(fin);
	for (const s of seqs) for (const sc of ['XS', 'S']) yield [{ '': s }, sc];
	for (const c of seqs) for (const r of [['nest'], ['bad', 'nest']] as Turn[][]) for (const sc of ['XS', 'S', 'M']) yield [{ '': r, t02: c }, sc];
	const few = seqs.filter(s => s.length <= 1 || (s.length === 2 && s[0] === 'bad'));
	for (const a of few) for (const b of few) { yield [{ '': ['nest2'], t01: a, t02: b }, 'S']; yield [{ '': ['nest'], t02: ['nest2'], 't02.t01': a, 't02.t02': b }, 'M']; }
	for (const sc of ['XS', 'S', 'M', 'L', 'XL']) { const deep: Record<string, Turn[]> = { '': ['nest'] }; let p = 't02'; for (let i = 0; i < 7; i++) { deep[p] = ['nest']; p += '.t02'; } yield [deep, sc]; }
}
main(async () => {
	const chk = new Check('C20', 'exploration');
	V = await repo('src/analyze/planner/validate.ts'); P = await repo('src/analyze/planner/cache.ts'); R = await repo('src/analyze/planner/recursive.ts');
	const G = await repo('src/analyze/planner/templates/registry.ts'); G._resetTemplateRegistryForTests(); for (const t of CAT) G.registerTemplate(t);
	chk.rule = 'every plan and every model script in the bound, judged by an independent statement of the invariants';
	chk.extra['bounds'] = 'plans of 1-2 tasks over 6 templates x 7 input sets, 3-4 tasks ending in the aggregator; every single change and pair of changes of 2 valid plans; both edges of all 10 count bands; model scripts of up to 3 turns at the root, in children and grandchildren, depth caps of all 5 scopes';
	await chk.sharded(async mine => {
		let i = 0;
		for (const gen of [structural, mutated]) for (const [p, f, c, n] of gen()) {
			if (!mine(i++)) continue;
			chk.evaluations++; const bad = judge(p, f, c); if (broken(p, f, c).size === 0) chk.nontrivial++;
			if (bad) { chk.violation(`plan ${n} ${shape(p).slice(0, 300)} f${f} c${c}`, `plan [${shape(p).slice(0, 300)}] (${n}, focused=${f}, child=${c}) ${bad}`, { plan: p, focused: f, child: c }); return; }
			if (i % 999 === 0) chk.sample({ plan: shape(p), violates: [...broken(p, f, c)] });
		}
		for (const [s, sc] of scripts()) {
			if (!mine(i++)) continue;
			chk.states++; chk.evaluations++; chk.nontrivial++; const bad = await planning(s, sc);
			if (bad) { chk.violation(`script ${JSON.stringify(s)} ${sc}`, `model turns ${JSON.stringify(s)} for a ${sc} run: ${bad}`, { script: s, scope: sc }); return; }
		}
	});
	chk.finish();
});
