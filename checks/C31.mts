// C31: a request enters the chain where its size says, an identifier names exactly one node, and a build starts only on an approved, current plan.
import { Check, main, THOROUGH, canon, repo, SCRATCH, sequences, product } from '../lib/mc.mts';
import { withFault } from '../lib/fsfault.mts';
import { World, AD, story } from '../lib/wf.mts';
import { readFileSync, existsSync } from 'node:fs';
import { createHash } from 'node:crypto';
import { join } from 'node:path';

const J = (x: unknown): string => JSON.stringify(x, null, 2) + '\n';
const T0 = '2026-01-02T03:04:05.000Z';
const clone = (x: any): any => JSON.parse(JSON.stringify(x));

// ---------------------------------------------------------------- epics, stories, tasks
type Epic = { hash: string; slug: string; created: string; stories: Record<string, { ref?: string; lldRef?: string; tasks: Record<string, string | null> }>; ref?: string; refOnHld?: boolean };
const E: Epic[] = [
	{ hash: '0123456789abcdef', slug: 'alpha-epic', created: '2026-01-02T23:30:00.000Z', ref: 'me/app#1', stories: { s1: { ref: 'me/app#2', tasks: { t1: 'me/app#11', t2: 'me/app#12', t11: null } }, s10: { lldRef: 'me/app#3', tasks: { t1: 'me/app#111' } } } },
	{ hash: '0123456700000000', slug: 'beta epic/x', created: '2026-01-03T00:30:00.000Z', ref: 'me/app#4', refOnHld: true, stories: { s1: { tasks: { t1: 'me/app#21', t2: null } }, s2: { ref: 'me/app#5', tasks: {} } } },
	{ hash: 'fedcba9876543210', slug: 'gamma', created: '2026-01-02T01:00:00.000+05:30', stories: { s1: { tasks: { t1: null, t1000: 'me/app#1000' } }, s1001: { tasks: { t3: 'me/app#13' } } } },
];
const TEXT: Record<string, { title: string; summary: string }> = {};
const mark = (e: Epic, s: string, t: string): string => `${e.hash.slice(0, 3)}${e.slug[0]}.${s}.${t}`;
const ODD = ['plain', '{{issueRef}} $& {{taskTitle}}', '`code` | "q" \\ $1 ```', 'é 漢\u{1F600}'];
function planTask(e: Epic, s: string, t: string): any {
	const m = mark(e, s, t), o = ODD[(t.length + s.length + e.slug.length) % ODD.length]!; TEXT[m] = { title: `Title<${m}> ${o}`, summary: `Summary<${m}> ${o}\nsecond <${m}>` };
	return { id: t, ...TEXT[m], size: 'M', order: 1, dependsOn: t === 't2' ? ['t1'] : [], acceptanceChecks: t === 't11' ? [] : [`check one <${m}> ${o}`, `check two <${m}>`], derivedFrom: [], tests: t === 't11' ? [] : [{ level: 'unit', name: `test <${m}> ${o}` }] };
}
const meta = (e: Epic, w: string, run: string, x: any = {}): any => ({ workflow: w, runId: run, schemaVersion: 1, createdAt: e.created, elapsedMs: 1, model: 'm', epicHash: e.hash, epicSlug: e.slug, approvedAt: T0, ...x });
const planFile = (e: Epic, s: string): string => `${AD}/PLAN-${e.hash}-${s}.json`, lldFile = (e: Epic, s: string): string => `${AD}/LLD-${e.hash}-${s}.json`;
function epicFiles(e: Epic): Record<string, string> {
	const out: Record<string, any> = {}; const storyRefs = Object.fromEntries(Object.entries(e.stories).filter(([, v]) => v.ref).map(([k, v]) => [k, v.ref]));
	out[`${AD}/DEF-${e.hash}.json`] = { meta: meta(e, 'define', 'rd', { tracker: { adapter: 'github', ...(e.ref && !e.refOnHld ? { epicRef: e.ref } : {}), storyRefs } }), body: { stories: Object.keys(e.stories).map(story) }, citations: [] };
	out[`${AD}/HLD-${e.hash}.json`] = { meta: meta(e, 'design.epic', 'rh', e.ref && e.refOnHld ? { tracker: { epicRef: e.ref } } : {}), body: {}, citations: [] };
	for (const [s, v] of Object.entries(e.stories)) {
		out[lldFile(e, s)] = { meta: meta(e, 'design.story', 'rl', { storyId: s, hldEffectiveHash: 'h-' + mark(e, s, ''), hldBaseRunId: 'rh', questionResolutions: { q1: { question: `Decision <${mark(e, s, 'lld')}>?`, status: 'resolved', choice: `Pick <${mark(e, s, 'lld')}>`, resolvedAt: T0 } }, ...(v.lldRef ? { tracker: { storyRef: v.lldRef } } : {}) }), body: {}, citations: [] };
		if (Object.keys(v.tasks).length) out[planFile(e, s)] = { meta: meta(e, 'plan', 'rp', { storyId: s, lldRunId: 'rl', lldEffectiveHash: 'h-' + mark(e, s, ''), tracker: { taskRefs: Object.fromEntries(Object.entries(v.tasks).filter(([, r]) => r)) } }), body: { tasks: Object.keys(v.tasks).map(t => planTask(e, s, t)) }, citations: [] };
	}
	return Object.fromEntries(Object.entries(out).map(([k, x]) => [k, J(x)]));
}
type Node = { e: Epic; s?: string; t?: string; ref?: string; canonical: string };
const day = (iso: string): string => new Date(iso).toISOString().slice(0, 10).replaceAll('-', '');
const pad = (s: string): string => s.slice(1).padStart(3, '0');
const idOf = (e: Epic, s?: string, t?: string): string => `E${day(e.created)}${e.hash.slice(0, 8)}` + (s ? `:S${pad(s)}` : '') + (t ? `:T${pad(t)}` : '');
const nodesOf = (e: Epic): Node[] => [{ e, ref: e.ref, canonical: idOf(e) }, ...Object.entries(e.stories).flatMap(([s, v]) => [{ e, s, ref: v.lldRef ?? v.ref, canonical: idOf(e, s) }, ...Object.entries(v.tasks).map(([t, r]) => ({ e, s, t, ref: r ?? undefined, canonical: idOf(e, s, t) }))])];

main(async () => {
	const chk = new Check('C31', 'exploration');
	chk.rule = 'a case is non-trivial when a build was refused or admitted, a verdict was recorded, or an invalid request was turned down';
	await chk.sharded(async mine => {
		const T = await repo('src/mcp/triage-step/handler.ts'), B = await repo('src/mcp/build-step/handler.ts'), V = await repo('src/mcp/build-step/phases/validate.ts'), RS = await repo('src/workflow/tracker/resolve.ts'), ID = await repo('src/workflow/id.ts'), G = await repo('src/workflow/gates.ts'), H = await repo('src/mcp/workflow-step/handler.ts'), ST = await repo('src/workflow/storage.ts');
		const w = new World(join(SCRATCH, 'w')); let job = 0; const turn = (): boolean => mine(job++);
		const frame = (r: any, ctx: any): any => { chk.evaluations++; const o = JSON.parse(r.content[0].text); if ((o.next === 'error') !== (r.isError === true)) chk.violation('frame', `an answer "${o.next}" with isError ${r.isError}`, ctx); return o; };
		const triage = async (x: any): Promise<any> => frame(await T.handleTriageStep(x), { call: x });
		const build = async (x: any): Promise<any> => frame(await B.handleBuildStep(x), { call: x });
		let session: (prompt: string, opts: any) => Promise<{ text: string }> = async () => ({ text: '' });
		V._setBuildValidateProviderForTests({ runEditSession: (p: string, o: any) => session(p, o) });

		// ------------------------------------------------ triage
		const FOCI = ['Add a cache', '  padded\n', 'multi\nline\n\n--- grounding ---', '"quoted" $& {{x}} \\n', 'é漢\u{1F600}', '\ud800 lone', '{"runId":"x","focus":"y","repo":"z"}', 'a'.repeat(5000), '(standalone-trivial)', 'null'];
		const SIZES = ['epic', 'feature', 'small', 'trivial'], KINDS = ['modules-touched', 'callers', 'new-subsystem', 'new-vs-reuse', 'cross-cutting', 'storage-or-schema', 'external-contract', 'other'];
		const SIGS: any[][] = [[], ...KINDS.map(k => [{ kind: k, detail: 'd', evidence: [] }]), [{ kind: 'callers', detail: '40 callers $&', evidence: ['src/a.ts', 'é'] }, { kind: 'other', detail: 'x', evidence: ['b'] }]];
		const ROUTE: Record<string, any> = { epic: { startStage: 'define', standalone: false, needsPlan: true, producesLld: true }, feature: { startStage: 'design.story', standalone: true, needsPlan: true, producesLld: true }, small: { startStage: 'design.story', standalone: true, needsPlan: false, producesLld: true }, trivial: { startStage: 'build', standalone: true, needsPlan: false, producesLld: false } };
		w.set({}); const R = w.root;
		for (const focus of FOCI) {
			if (!turn()) continue; const s = await triage({ phase: 'start', focus, repo: R });
			if (s.next !== 'emit_classification' || typeof s.state !== 'string') { chk.violation('start', `triage of a request does not start: ${canon(s)}`, { focus }); continue; }
			if (!String(s.prompt.user ?? '').includes(focus.trim().replace('\ud800', '\ufffd')) && !String(s.prompt.user ?? '').includes(focus.trim())) chk.violation('prompt', 'the request is not in the classification prompt', { focus });
			for (const [size, sig, title, why] of product(SIZES, SIGS, ['Add x', ' $& "t" '], ['because', 'r\n{{y}}'])) {
				const result = { sizeClass: size, rationale: why, signals: sig, storyTitle: title }, ctx = { focus, result };
				const o = await triage({ phase: 'classify', state: s.state, result }); const r = ROUTE[size]!; chk.nontrivial++;
				const call = size === 'epic' ? { tool: 'insrc_workflow_run', params: { repo: R, workflow: 'define', focus } }
					: size === 'trivial' ? { tool: 'insrc_build_step', params: { phase: 'implement', repo: R, target: '(standalone-trivial)', standalone: { standalone: true, sizeClass: size, focus, triageRationale: why } } }
						: { tool: 'insrc_workflow_run', params: { repo: R, workflow: 'design.story', focus, params: { standalone: true, storyTitle: title, storySpec: focus, sizeClass: size, triageRationale: why } } };
				if (o.next !== 'done' || canon(o.route) !== canon(r) || canon(o.result) !== canon({ ...result, route: r }) || canon(o.nextCall) !== canon(call)) { chk.violation('route', `a ${size} request gets ${canon({ next: o.next, route: o.route, nextCall: o.nextCall, result: o.result, message: o.message })}, expected route ${canon(r)} and call ${canon(call)}`, ctx); break; }
				if (!String(o.summary).includes(size) || !String(o.summary).includes(r.startStage) || /\bplan\b/.test(o.summary) !== (r.needsPlan && size !== 'trivial')) chk.violation('summary', `the summary of a ${size} request reads: ${o.summary}`, ctx);
			}
			// a judgement outside the schema routes nothing
			const ok = { sizeClass: 'small', rationale: 'r', signals: [{ kind: 'other', detail: 'd', evidence: ['e'] }], storyTitle: 't' };
			const bad: any[] = [undefined, null, 'small', [], {}, ...Object.keys(ok).flatMap(k => [undefined, null, 7, '', {}].map(v => { const x: any = clone(ok); if (v === undefined) delete x[k]; else x[k] = v; return x; })), { ...ok, sizeClass: 'huge' }, { ...ok, sizeClass: 'Small' }, { ...ok, route: ROUTE['trivial'] }, ...['kind', 'detail', 'evidence'].flatMap(k => [undefined, null, 7, ''].map(v => { const x = clone(ok); if (v === undefined) delete x.signals[0][k]; else x.signals[0][k] = v; return x; })), { ...ok, signals: [{ ...ok.signals[0], evidence: [7] }] }, { ...ok, signals: [{ ...ok.signals[0], more: 1 }] }, { ...ok, signals: [null] }];
			for (const b of bad) { const o = await triage({ phase: 'classify', state: s.state, result: b }); chk.nontrivial++; if (o.next !== 'error') chk.violation('schema', `a classification outside the schema is routed: ${canon(o.nextCall ?? o)}`, { result: b }); }
			// a token that is not one of ours routes nothing
			const st = (x: any): string => Buffer.from(JSON.stringify(x)).toString('base64');
			for (const t of [undefined, null, 7, '', 'zzz', '{}', st(null), st('x'), st({}), st({ runId: 'r', focus: 'f' }), st({ runId: 'r', repo: R }), st({ focus: 'f', repo: R }), st({ runId: 'r', focus: 7, repo: R }), st({ runId: 'r', focus: 'f', repo: null }), s.state.slice(0, s.state.length >> 1)]) { const o = await triage({ phase: 'classify', state: t, result: ok }); chk.nontrivial++; if (o.next !== 'error') chk.violation('token', `a malformed token is routed: ${canon(o.nextCall ?? o)}`, { state: t }); }
		}
		if (turn()) for (const x of [null, 7, 'start', [], {}, { phase: 'x' }, { phase: null }, { phase: 'start', repo: R }, { phase: 'start', repo: R, focus: '' }, { phase: 'start', repo: R, focus: ' \n' }, { phase: 'start', repo: R, focus: 7 }]) { const o = await triage(x); if (o.next !== 'error') chk.violation('triage input', `an invalid request answers "${o.next}"`, { call: x }); }
		// the call triage hands out works
		for (const [focus, size] of product(FOCI.slice(0, 5), ['feature', 'small', 'trivial'])) if (turn()) {
			w.set({}); const s = await triage({ phase: 'start', focus, repo: R }), o = await triage({ phase: 'classify', state: s.state, result: { sizeClass: size, rationale: 'why', signals: [], storyTitle: 'The story' } });
			if (size === 'trivial') { const b = await build(o.nextCall.params); chk.nontrivial++; w.snap(); if (b.next !== 'implement' || !b.prompt.includes(focus.trim())) chk.violation('next call', `the call handed out for a trivial change answers ${canon(b)}`, { focus }); }
			else { const b = frame(await H.handleWorkflowStep({ phase: 'start', ...o.nextCall.params }), { focus, size }); chk.nontrivial++; if (b.next === 'error' || b.next === 'refused' || !JSON.stringify(b).includes(JSON.stringify(focus.trim()).slice(1, -1))) chk.violation('next call', `the call handed out for a ${size} request answers ${canon(b).slice(0, 400)}`, { focus }); }
		}

		// ------------------------------------------------ hierarchical ids
		const HASHES = ['0123456789abcdef', '0123456700000000', 'ffffffffffffffff', '00000000a'], DATES: [string, string][] = [['2026-01-02T23:59:59.999Z', '20260102'], ['2026-01-03T00:00:00.000Z', '20260103'], ['2026-01-03T04:00:00.000+05:30', '20260102'], ['2025-12-31T20:00:00-08:00', '20260101'], ['0099-03-04T00:00:00Z', '00990304']], ORD = [1, 2, 9, 10, 99, 100, 999, 1000, 1001, 12345];
		if (turn()) {
			const seen = new Map<string, string>();
			const judge = (id: any, want: any, key: string): void => {
				chk.evaluations++; const c = ID.toCanonical(id), s = ID.toSlug(id);
				for (const f of [c, s]) { const p = ID.parseWorkflowId(f); if (canon(p) !== canon(want)) chk.violation('id round trip', `${f} reads as ${canon(p)}, expected ${canon(want)}`, { id }); const was = seen.get(f); if (was !== undefined && was !== key) chk.violation('id unique', `${f} names both ${was} and ${key}`, {}); seen.set(f, key); if (!ID.isWorkflowIdString(f)) chk.violation('id guard', `${f} is not taken for an id`, {}); }
				if (s.includes(':') || !/^[A-Za-z0-9-]+$/.test(s)) chk.violation('slug', `the slug ${s} is not path safe`, {});
				// hierarchy
				const par = ID.parentId(id), ep = ID.epicOf(id), wp = want.level === 'task' ? { level: 'story', date: want.date, hash8: want.hash8, story: want.story } : want.level === 'story' ? { level: 'epic', date: want.date, hash8: want.hash8 } : null;
				if (canon(par) !== canon(wp) || canon(ep) !== canon({ level: 'epic', date: want.date, hash8: want.hash8 })) chk.violation('hierarchy', `parent of ${c} is ${canon(par)}, its epic ${canon(ep)}`, {});
				if (par !== null && !c.startsWith(ID.toCanonical(par) + ':')) chk.violation('hierarchy', `${c} does not extend its parent ${ID.toCanonical(par)}`, {});
				if ([ID.isEpicId(id), ID.isStoryId(id), ID.isTaskId(id)].join() !== [want.level === 'epic', want.level === 'story', want.level === 'task'].join()) chk.violation('level', `${c} has the wrong level`, {});
			};
			for (const h of HASHES) for (const [iso, d] of DATES) {
				const base = { date: d, hash8: h.slice(0, 8) }; judge(ID.epicWorkflowId(h, iso), { level: 'epic', ...base }, `${d}${base.hash8}`);
				for (const s of ORD) { judge(ID.storyWorkflowId(h, iso, `s${s}`), { level: 'story', ...base, story: s }, `${d}${base.hash8}/${s}`); if (ID.ordinalToStoryId(ID.storyIdToOrdinal(`s${s}`)) !== `s${s}` || ID.ordinalToTaskId(ID.taskIdToOrdinal(`t${s}`)) !== `t${s}`) chk.violation('ordinal', `ordinal ${s} does not round-trip`, {}); for (const t of ORD) judge(ID.taskWorkflowId(h, iso, `s${s}`, `t${t}`), { level: 'task', ...base, story: s, task: t }, `${d}${base.hash8}/${s}/${t}`); }
			}
			// what is not an id is not read as one: every one-character change of four ids
			for (const c of ['E2026010201234567', 'E2026010201234567:S001', 'E2026010201234567:S010:T003', 'E2026010201234567-S010-T1000']) for (let i = 0; i <= c.length; i++) for (const ch of [null, '', ':', '-', 'S', 'T', 'E', 's', '0', '7', 'a', 'g', 'F', ' ', '/', '.', '\n']) for (const ins of [0, 1]) {
				if (ch === null && ins) continue; const x = c.slice(0, i) + (ch ?? '') + c.slice(ins || ch === '' && i === c.length ? i : i + 1); chk.evaluations++; const p = ID.parseWorkflowId(x);
				const m = /^E(\d{8})([0-9a-f]{8})(?:([:-])S(\d+)(?:\3T(\d+))?)?$/.exec(x); const ok = m !== null && !x.includes('\n');
				if ((p !== null) !== ok) chk.violation('id form', `${JSON.stringify(x)} is ${p ? 'taken for' : 'not taken for'} an id`, {});
				else if (p !== null && (p.date !== m![1] || p.hash8 !== m![2] || (p.story ?? null) !== (m![4] ? Number(m![4]) : null) || (p.task ?? null) !== (m![5] ? Number(m![5]) : null))) chk.violation('id value', `${x} reads as ${canon(p)}`, {});
			}
			for (const [h, iso, s, t] of [['XYZ', T0, 's1', 't1'], ['0123', T0, 's1', 't1'], ['0123456789abcdef', 'nope', 's1', 't1'], ['0123456789abcdef', T0, '1', 't1'], ['0123456789abcdef', T0, 's1', 's1'], ['0123456789abcdef', T0, 's1', 'tx'], ['0123456789abcdef', T0, 's1x', 't1'], ['0123456789ABCDEF', T0, 's1', 't1']]) { let r: any; try { r = ID.toCanonical(ID.taskWorkflowId(h, iso, s, t)); } catch { continue; } chk.violation('id mint', `an id ${r} is minted from ${canon([h, iso, s, t])}`, {}); }
		}

		// ------------------------------------------------ an identifier names exactly one node
		for (const set of [[0], [1], [2], [0, 1], [0, 2], [1, 2], [0, 1, 2], [2, 1, 0]]) for (const hideDef of [-1, ...set]) {
			if (!turn()) continue; const epics = set.map(i => E[i]!);
			const files = Object.assign({}, ...epics.map(epicFiles)); if (hideDef >= 0) delete files[`${AD}/DEF-${E[hideDef]!.hash}.json`];
			files[`${AD}/notes.txt`] = 'me/app#11'; files[`${AD}/PLAN-${E[0]!.hash}-s1.json.tmp`] = '{'; files[`${AD}/PLAN-zz-s1.json`] = '{'; files[`${AD}/LLD-${'9'.repeat(16)}-s1.json`] = 'not json';
			w.set(files); const live = epics.filter(e => e !== E[hideDef]); const nodes = live.flatMap(nodesOf); const before = canon(w.snap());
			const check = async (target: string, n: Node | null): Promise<void> => {
				chk.evaluations++; const ctx = { epics: set, without_definition: hideDef, target }; const r = RS.resolveWorkflowRef(R, target); chk.nontrivial++;
				if (n === null) { if (r !== null && !(r.level === 'task' && r.task === undefined)) chk.violation('resolved', `"${target}" resolves to ${r.workflowId}, expected nothing`, ctx); }
				else if (r === null) chk.violation('unresolved', `"${target}" resolves to nothing, expected ${n.canonical}`, ctx);
				else {
					const got = { level: r.level, hash: r.epicHash, slug: r.epicSlug, s: r.storyId ?? null, t: r.taskId ?? null, id: r.workflowId, sl: r.slug, ref: r.issueRef ?? null, task: r.task?.title ?? null, storyRef: r.storyRef ?? null, epicRef: r.epicRef ?? null };
					const st = n.s ? n.e.stories[n.s] : undefined;
					const want = { level: n.t ? 'task' : n.s ? 'story' : 'epic', hash: n.e.hash, slug: n.e.slug, s: n.s ?? null, t: n.t ?? null, id: n.canonical, sl: n.canonical.replaceAll(':', '-'), ref: n.ref ?? null, task: n.t ? TEXT[mark(n.e, n.s!, n.t)]!.title : null, storyRef: st?.lldRef ?? st?.ref ?? null, epicRef: n.e.ref ?? null };
					if (canon(got) !== canon(want)) chk.violation('resolved', `"${target}" resolves to ${canon(got)}, expected ${canon(want)}`, ctx);
				}
				const b = await build({ phase: 'implement', repo: R, target });
				if (n?.t === undefined) { if (b.next !== 'error') chk.violation('build target', `build starts for "${target}", which names no task: ${b.workflowId}`, ctx); return; }
				if (b.next !== 'implement' || b.taskId !== n.t || b.workflowId !== n.canonical || (b.issueRef ?? null) !== (n.ref ?? null)) { chk.violation('build target', `build of "${target}" answers ${canon({ ...b, prompt: undefined })}, expected ${n.canonical}`, ctx); return; }
				const k = mark(n.e, n.s!, n.t), task = JSON.parse(files[planFile(n.e, n.s!)]).body.tasks.find((x: any) => x.id === n.t), p: string = b.prompt;
				for (const piece of [task.title, task.summary, ...task.acceptanceChecks, ...task.tests.map((x: any) => x.name), `Pick <${mark(n.e, n.s!, 'lld')}>`, `Decision <${mark(n.e, n.s!, 'lld')}>`, ST.planMdRel(n.e.slug, n.s), ST.lldMdRel(n.e.slug, n.s), ...task.dependsOn]) if (!p.includes(piece)) chk.violation('prompt', `the build prompt of ${n.canonical} lacks ${JSON.stringify(piece)}`, ctx);
				for (const m of p.matchAll(/<([0-9a-f]{3}[a-z]\.s\d+\.(?:t\d+|lld))>/g)) if (m[1] !== k && m[1] !== mark(n.e, n.s!, 'lld')) chk.violation('prompt', `the build prompt of ${n.canonical} carries text of ${m[1]}`, ctx);
				const left = p.replaceAll('{{issueRef}} $& {{taskTitle}}', ''); if (/\{\{\w+\}\}/.test(left)) chk.violation('prompt', `the build prompt of ${n.canonical} has an unfilled placeholder ${/\{\{\w+\}\}/.exec(left)![0]}`, ctx);
				// the gate is asked about the same task
				let asked = ''; session = async (pp, o) => { asked = pp; if (o.cwd !== R) chk.violation('gate', `the validation runs in ${o.cwd}`, ctx); return { text: '{"passed": false}' }; };
				const v = await build({ phase: 'validate', repo: R, target }); if (v.next !== 'done' || v.passed !== false) chk.violation('gate', `validation of ${n.canonical} answers ${canon(v)}`, ctx);
				for (const piece of [task.title, task.summary, ...task.acceptanceChecks, ...task.tests.map((x: any) => x.name)]) if (!asked.includes(piece)) chk.violation('gate', `the validation prompt of ${n.canonical} lacks ${JSON.stringify(piece)}`, ctx);
				for (const m of asked.matchAll(/<([0-9a-f]{3}[a-z]\.s\d+\.(?:t\d+|lld))>/g)) if (m[1] !== k && m[1] !== mark(n.e, n.s!, 'lld')) chk.violation('gate', `the validation prompt of ${n.canonical} carries text of ${m[1]}`, ctx);
				const left2 = asked.replaceAll('{{issueRef}} $& {{taskTitle}}', ''); if (/\{\{\w+\}\}/.test(left2)) chk.violation('gate', `the validation prompt of ${n.canonical} has an unfilled placeholder`, ctx);
				const rec = JSON.parse(readFileSync(join(R, AD, `BUILD-${n.e.hash}-${n.s}.json`), 'utf8')); if (rec.meta.epicHash !== n.e.hash || rec.meta.storyId !== n.s || !rec.body.tasks.some((x: any) => x.id === n.t && x.passed === false)) chk.violation('ledger', `validating ${n.canonical} recorded ${canon(rec)}`, ctx);
			};
			for (const n of nodes) { for (const t of [n.canonical, n.canonical.replaceAll(':', '-'), ` ${n.canonical}\n`]) await check(t, n); if (n.ref) { const num = n.ref.split('#')[1]!; for (const t of [n.ref, `#${num}`, num, ` #${num} `]) await check(t, n); } if (n.s) await check(n.t ? `${n.s}/${n.t}` : n.s, live.length === 1 && epics.length === 1 ? n : live.length === 1 && hideDef >= 0 ? n : null); }
			for (const t of ['', ' ', '#', '#0', '#9999', '#1x', 'me/app', 'me/app#', 'me/app#99', 'you/app#11', 'me/other#12', 'me/app#11x', 's99', 's1/t99', 's1/', '/t1', 's1/t1/t2', 'S1', 's', 't1', 'E20260102', 'E20260102deadbeef:S001:T001', `E20260104${E[0]!.hash.slice(0, 8)}:S001:T001`, `${idOf(E[0]!, 's1', 't2')}9`, '../x', 'undefined', '(standalone-trivial)', 'x'.repeat(3000)]) { if (t === 's99') { const r = await build({ phase: 'implement', repo: R, target: t }); if (r.next !== 'error') chk.violation('build target', `build starts for "${t}"`, {}); continue; } await check(t, null); }
			for (const t of [undefined, null, 7, {}, []]) for (const phase of ['implement', 'validate']) { const r = await build({ phase, repo: R, target: t }); if (r.next !== 'error') chk.violation('build target', `${phase} starts for target ${canon(t ?? null)}`, {}); }
			const after = Object.fromEntries(Object.entries(w.snap()).filter(([f]) => !/(^|\/)BUILD-[^/]*\.(json|md)$/.test(f))); if (canon(after) !== before) { const b0 = JSON.parse(before); chk.violation('effect', `naming and validating tasks changed other files: ${[...new Set([...Object.keys(after), ...Object.keys(b0)])].filter(k => after[k] !== b0[k])}`, { epics: set }); }
		}
		if (turn()) for (const x of [null, 7, 'implement', [], {}, { phase: 'x' }, { phase: null }, { phase: 'constructor' }]) { const o = await build(x); if (o.next !== 'error') chk.violation('build input', `an invalid request answers "${o.next}"`, { call: x }); }

		// ------------------------------------------------ admission
		const PL = ['missing', 'draft', 'approved', 'rejected', 'approved+rejected', 'empty-approval', 'corrupt'], LL = ['missing', 'A', 'B', 'empty', 'corrupt', 'unapproved A'], REC = ['A', 'B', '', undefined];
		for (const [p, l, rec, otherPlan] of product(PL, LL, REC, ['missing', 'approved'])) {
			if (!turn()) continue; const e = E[0]!, f = epicFiles(e), P = planFile(e, 's1'), L = lldFile(e, 's1'), ctx = { plan: p, design: l, recorded: rec ?? null, other_story: otherPlan };
			const plan = JSON.parse(f[P]!), lld = JSON.parse(f[L]!);
			delete plan.meta.approvedAt; if (p.startsWith('approved')) plan.meta.approvedAt = T0; if (p.includes('rejected')) { plan.meta.rejectedAt = T0; plan.meta.rejectReason = 'no'; } if (p === 'empty-approval') plan.meta.approvedAt = '';
			if (rec === undefined) delete plan.meta.lldEffectiveHash; else plan.meta.lldEffectiveHash = rec;
			lld.meta.hldEffectiveHash = l === 'empty' ? '' : l.slice(-1); if (l.startsWith('unapproved')) delete lld.meta.approvedAt;
			if (p === 'missing') delete f[P]; else f[P] = p === 'corrupt' ? '{"meta":' : J(plan);
			if (l === 'missing') delete f[L]; else f[L] = l === 'corrupt' ? '{"meta":' : J(lld);
			if (otherPlan === 'missing') { delete f[planFile(e, 's10')]; }
			w.set(f); const before = canon(w.snap()); chk.nontrivial++;
			const got = await build({ phase: 'implement', repo: R, target: idOf(e, 's1', 't1') });
			if (canon(w.snap()) !== before) chk.violation('treeUntouched', 'asking for a build changed files', ctx);
			if (p === 'missing' || p === 'corrupt') { // the task itself lives in the plan
				if (got.next !== 'error' && !(got.next === 'refused' && p === 'missing' && got.refusal.reason === 'plan-missing')) chk.violation('admission', `without a ${p === 'missing' ? '' : 'readable '}plan the build answers ${canon({ ...got, prompt: undefined })}`, ctx);
			} else {
				const cur = l === 'missing' || l === 'corrupt' ? null : l === 'empty' ? '' : l.slice(-1);
				const want = p !== 'approved' ? 'plan-unapproved' : cur === null ? 'error' : !rec || rec !== cur ? 'plan-stale' : 'implement';
				const is = got.next === 'refused' ? got.refusal.reason : got.next;
				if (is !== want) chk.violation('admission', `a build on a ${p} plan made from design "${rec ?? ''}" while the design is "${cur}" answers ${is}, expected ${want}`, ctx);
				if (want === 'plan-stale' && (got.refusal.staleness?.planRecordedDesignHash !== (rec ?? '') || got.refusal.staleness?.currentDesignHash !== cur)) chk.violation('staleness', `the refusal reports ${canon(got.refusal.staleness)}`, ctx);
				if (got.next === 'refused' && got.refusal.treeUntouched !== true) chk.violation('refusal', `the refusal reports treeUntouched ${got.refusal.treeUntouched}`, ctx);
			}
		}
		// ------------------------------------------------ standalone builds
		const SH = 'aaaabbbbccccdddd';
		const SL = ['missing', 'draft', 'approved', 'rejected', 'corrupt', 'hld-bound'];
		const trivialHash = (f: string): string => createHash('sha256').update(f.trim()).digest('hex').slice(0, 16);
		for (const [l, size, hash, sid, focus, why] of product(SL, [undefined, 'small', 'feature', 'trivial'], [undefined, SH, 'SHORT', '../../../../x'], [undefined, 'S001', 's1', '../../../../esc'], [undefined, '', ' \n', 'Fix the <typo> $& {{x}}'], [undefined, 'why not'])) {
			if (!turn()) continue; const ctx = { design: l, sizeClass: size ?? null, epicHash: hash ?? null, storyId: sid ?? null, focus: focus ?? null };
			const f: Record<string, string> = { 'keep.txt': 'k' }; const es = { ...E[0]!, hash: SH, slug: 'solo' }; const story0 = sid ?? 'S001';
			const lld = { meta: meta(es, 'design.story', 'rl', { storyId: story0, ...(l === 'hld-bound' ? {} : { standalone: true }), questionResolutions: { q: { question: 'Q<solo>?', status: 'resolved', choice: 'C<solo>', resolvedAt: T0 } } }), body: {}, citations: [] } as any;
			if (l === 'draft') delete lld.meta.approvedAt; if (l === 'rejected') lld.meta.rejectedAt = T0; if (l === 'hld-bound') { lld.meta.hldEffectiveHash = 'x'; }
			if (l !== 'missing' && !story0.includes('/')) f[`${AD}/LLD-${SH}-${story0}.json`] = l === 'corrupt' ? '{' : J(lld);
			w.set(f); const before = w.snap(); chk.nontrivial++;
			const standalone: any = { standalone: true }; if (size !== undefined) standalone.sizeClass = size; if (hash !== undefined) standalone.epicHash = hash; if (sid !== undefined) standalone.storyId = sid; if (focus !== undefined) standalone.focus = focus; if (why !== undefined) standalone.triageRationale = why;
			const got = await build({ phase: 'implement', repo: R, target: '(standalone)', standalone }); const after = w.snap();
			const triv = size === 'trivial', badHash = hash !== undefined && hash !== SH, badStory = story0.includes('/');
			const want = triv ? (!focus?.trim() || badHash || badStory ? 'error' : 'implement') : hash === undefined || badHash || badStory ? 'no' : l === 'missing' ? 'plan-missing' : l === 'draft' || l === 'rejected' ? 'plan-unapproved' : l === 'corrupt' || l === 'hld-bound' ? 'no' : 'implement';
			const is = got.next === 'refused' ? got.refusal.reason : got.next;
			if (want === 'no' ? is === 'implement' : is !== want) { chk.violation('standalone', `a standalone ${size ?? 'small'} build answers ${is}, expected ${want === 'no' ? 'a refusal or an error' : want}: ${canon(got.error ?? got.refusal ?? null)}`, ctx); continue; }
			const diff = [...new Set([...Object.keys(before), ...Object.keys(after)])].filter(k => before[k] !== after[k]);
			if (!triv || is !== 'implement') { if (diff.length) chk.violation('effect', `a build that ${is === 'implement' ? 'implements a design' : 'was refused'} changed ${diff}`, ctx); if (is === 'implement') { for (const piece of ['C<solo>', ST.lldMdRel('solo', story0), ...(focus?.trim() ? [focus.trim()] : [])]) if (!got.prompt.includes(piece)) chk.violation('prompt', `the standalone prompt lacks ${piece}`, ctx); } continue; }
			const hh = hash ?? trivialHash(focus!); if (diff.length !== 2) chk.violation('ledger', `a trivial build wrote ${diff}`, ctx);
			const rec = JSON.parse(after[`${AD}/BUILD-${hh}-${story0}.json`] ?? 'null'); const md = diff.find(k => k.endsWith('.md'));
			if (rec === null || rec.meta.epicHash !== hh || rec.meta.storyId !== story0 || rec.meta.standalone !== true || rec.meta.sizeClass !== 'trivial' || rec.body.focus !== focus!.trim() || (rec.meta.triageRationale ?? null) !== (why ?? null)) chk.violation('ledger', `a trivial build recorded ${canon(rec)}`, ctx);
			if (!md || !after[md]!.includes(focus!.trim()) || (why && !after[md]!.includes(why))) chk.violation('ledger', `the trivial build's document lacks its scope`, ctx);
			if (!got.prompt.includes(focus!.trim())) chk.violation('prompt', 'the trivial build prompt lacks its scope', ctx);
		}
		// two trivial changes get two records, the same one once
		for (const seq of sequences(3, 3)) if (turn()) { w.set({}); const FX = ['one change', 'another change', ' one change ']; for (const i of seq) await build({ phase: 'implement', repo: R, target: 'x', standalone: { standalone: true, sizeClass: 'trivial', focus: FX[i]! } }); const n = Object.keys(w.snap()).filter(f => f.endsWith('.json')).length, u = new Set(seq.map(i => FX[i]!.trim())).size; if (n !== u) chk.violation('ledger', `${u} different trivial changes left ${n} records`, { changes: seq }); }

		// ------------------------------------------------ the verdict
		// fragments of a session's last message; what the session says is its last fenced JSON block, or else its last top-level object
		type Frag = { t: string; fenced?: boolean; obj?: any };
		const FR: Frag[] = [
			{ t: 'I looked at the code.' }, { t: 'It says "passed": true, but {not json}? no.', obj: undefined },
			{ t: '```json\n{"passed": true, "reason": "ok"}\n```', fenced: true, obj: { passed: true, reason: 'ok' } },
			{ t: '```json\n{"taskId": "t1", "passed": false, "checks": [{"check": "a } b", "satisfied": true}]}\n```', fenced: true, obj: { taskId: 't1', passed: false, checks: [{ check: 'a } b', satisfied: true }] } },
			{ t: '{"passed": true, "inner": {"passed": false}}', obj: { passed: true, inner: { passed: false } } },
			{ t: '{"passed": false, "inner": {"passed": true}, "s": "quote \\" {brace"}', obj: { passed: false, inner: { passed: true }, s: 'quote " {brace' } },
			{ t: '```json\n{"passed": "true"}\n```', fenced: true, obj: { passed: 'true' } },
			{ t: '```JSON {"passed":1}```', fenced: true, obj: { passed: 1 } },
			{ t: '{"checks": []}', obj: { checks: [] } },
			{ t: '```ts\nif (x) { y(); }\n```' },
		];
		const NOTJSON = new Set([1, 9]); // fragments with braces that are no JSON object: only before a fenced block is their meaning settled
		const e0 = E[0]!; const base = epicFiles(e0); const tgt = idOf(e0, 's1', 't1');
		for (let len = 0; len <= (THOROUGH ? 4 : 3); len++) for (const seq of sequences(FR.length, len)) {
			if (!turn()) continue; const fs_ = seq.map(i => FR[i]!), text = fs_.map(f => f.t).join('\n\n');
			const fenced = fs_.filter(f => f.fenced); const bare = fs_.filter(f => f.obj !== undefined);
			if (!fenced.length && seq.some(i => NOTJSON.has(i))) { const o = V.parseVerdict(text); chk.evaluations++; if ((o as any)?.passed === true && !bare.some(f => f.obj.passed === true)) chk.violation('verdict', 'a verdict nobody gave passes', { text }); continue; }
			const want = fenced.length ? fenced.at(-1)!.obj : bare.at(-1)?.obj; chk.evaluations++; const got = V.parseVerdict(text);
			if (canon(got ?? null) !== canon(want ?? null)) chk.violation('verdict', `the session's verdict reads as ${canon(got ?? null)}, expected ${canon(want ?? null)}`, { text });
			if (len <= 2) { w.set(base); session = async () => ({ text }); const o = await build({ phase: 'validate', repo: R, target: tgt }); chk.nontrivial++; const p = join(R, AD, `BUILD-${e0.hash}-s1.json`);
				if (want === undefined) { if (o.next !== 'error') chk.violation('verdict', `a session without a verdict answers ${canon(o)}`, { text }); if (existsSync(p)) chk.violation('ledger', 'a session without a verdict was recorded', { text }); }
				else { if (o.next !== 'done' || o.passed !== (want.passed === true) || canon(o.verdict) !== canon(want)) chk.violation('verdict', `validation answers ${canon(o)}, expected passed ${want.passed === true}`, { text }); const rec = JSON.parse(readFileSync(p, 'utf8')); if (canon(rec.body.tasks) !== canon([{ id: 't1', passed: want.passed === true }])) chk.violation('ledger', `recorded ${canon(rec.body.tasks)}`, { text }); } w.snap(); }
		}
		// ------------------------------------------------ the ledger
		const LOPS = ['t1+', 't1-', 't2+', 't11-', 'err', 'throw', 'approve', 'reject', 'corrupt', 'nobody', 'notasks', 'other'];
		const recP = `${AD}/BUILD-${e0.hash}-s1.json`;
		const LB = { ...base, [`docs/builds/BUILD-keep.md`]: 'k' };
		for (let len = 0; len <= (THOROUGH ? 5 : 4); len++) for (const seq of sequences(LOPS.length, len)) {
			if (len === 4 && !THOROUGH && seq.reduce((a, x, i) => a + x * [1, 5, 7, 11][i]!, 0) % 2 !== 0) continue;
			if (!turn()) continue; w.set(LB); chk.states++; const ctx = { history: seq.map(i => LOPS[i]) };
			let m: null | { tasks: Record<string, boolean>; stamps: any; created?: string; broken?: boolean } = null; let other: any = null;
			for (const i of seq) {
				const o = LOPS[i]!; chk.transitions++; const file = join(R, recP);
				if (/^t\d+[+-]$/.test(o) || o === 'other') {
					const t = o === 'other' ? 't1' : o.slice(0, -1), pass = o === 'other' || o.endsWith('+'); session = async () => ({ text: `{"passed": ${pass}}` });
					const r = await build({ phase: 'validate', repo: R, target: idOf(e0, o === 'other' ? 's10' : 's1', t) }); if (r.next !== 'done' || r.passed !== pass) chk.violation('verdict', `validation answers ${canon(r)}`, ctx);
					if (o === 'other') { other = true; continue; }
					if (m === null || m.broken) m = { tasks: { [t]: pass }, stamps: {} }; else m.tasks[t] = pass;
					if (m.created === undefined) m.created = JSON.parse(readFileSync(file, 'utf8')).meta.createdAt;
				} else if (o === 'err' || o === 'throw') { session = async () => { if (o === 'throw') throw new Error('session died'); return { text: 'no verdict' }; }; const r = await build({ phase: 'validate', repo: R, target: idOf(e0, 's1', 't1') }); if (r.next !== 'error') chk.violation('verdict', `a failed session answers ${canon(r)}`, ctx); }
				else if (m !== null && !m.broken) {
					const j = JSON.parse(readFileSync(file, 'utf8'));
					if (o === 'approve') { j.meta.approvedAt = '2026-05-05T00:00:00.000Z'; j.meta.reviewOverride = { reason: 'ok', at: T0 }; m.stamps = { ...m.stamps, approvedAt: j.meta.approvedAt, reviewOverride: j.meta.reviewOverride }; }
					else if (o === 'reject') { j.meta.rejectedAt = '2026-06-06T00:00:00.000Z'; j.meta.rejectReason = 'bad'; m.stamps = { ...m.stamps, rejectedAt: j.meta.rejectedAt, rejectReason: 'bad' }; }
					else if (o === 'nobody') { delete j.body; m.tasks = {}; } else if (o === 'notasks') { delete j.body?.tasks; m.tasks = {}; }
					w.last.set(recP, '\0'); const { writeFileSync } = await import('node:fs');
					if (o === 'corrupt') { writeFileSync(file, '{"meta":'); m.broken = true; } else writeFileSync(file, J(j));
				}
			}
			const s = w.snap(); chk.traces++;
			if ((s[recP] === undefined) !== (m === null)) { chk.violation('ledger', `the record is ${s[recP] === undefined ? 'missing' : 'there'}`, ctx); continue; }
			if (m !== null && !m.broken) {
				chk.nontrivial++; const j = JSON.parse(s[recP]!); const st = Object.fromEntries(['approvedAt', 'rejectedAt', 'rejectReason', 'reviewOverride'].filter(k => j.meta[k] !== undefined).map(k => [k, j.meta[k]]));
				if (canon(Object.fromEntries((j.body?.tasks ?? []).map((t: any) => [t.id, t.passed]))) !== canon(m.tasks) || (j.body?.tasks ?? []).length !== Object.keys(m.tasks).length) chk.violation('ledger', `the record holds ${canon(j.body?.tasks ?? null)}, expected ${canon(m.tasks)}`, ctx);
				if (canon(st) !== canon(m.stamps)) chk.violation('stamps', `the record carries ${canon(st)}, expected ${canon(m.stamps)}`, ctx);
				if (j.meta.createdAt !== m.created) chk.violation('created', `the record's creation moved from ${m.created} to ${j.meta.createdAt}`, ctx);
				if (/^t\d/.test(LOPS[seq.at(-1)!]!)) { const md = Object.entries(s).find(([f]) => /BUILD-.*s1\.md$/.test(f))?.[1] ?? ''; const got = Object.fromEntries([...md.matchAll(/^- (\S+) `(t\d+)`$/gm)].map(x => [x[2], x[1]])); const mark2: Record<string, Set<string>> = {}; for (const [t, p] of Object.entries(m.tasks)) (mark2[String(p)] ??= new Set()).add(got[t] ?? '(absent)'); if (Object.keys(got).length !== Object.keys(m.tasks).length || Object.values(mark2).some(x => x.size !== 1 || x.has('(absent)')) || (mark2['true'] && mark2['false'] && [...mark2['true']][0] === [...mark2['false']][0])) chk.violation('document', `the document shows ${canon(got)} for ${canon(m.tasks)}`, ctx); }
			}
			const oth = s[`${AD}/BUILD-${e0.hash}-s10.json`]; if ((oth !== undefined) !== (other !== null)) chk.violation('ledger', 'another story\'s record appeared or is missing', ctx); else if (oth && canon(JSON.parse(oth).body.tasks) !== canon([{ id: 't1', passed: true }])) chk.violation('ledger', `another story's record holds ${oth}`, ctx);
			const rest = Object.fromEntries(Object.entries(s).filter(([f]) => !/BUILD-(?!keep)/.test(f))); if (canon(rest) !== canon(LB)) chk.violation('effect', 'validation changed other files', ctx);
		}
		// overlapping validations: nobody's verdict is lost, whichever session ends first
		for (const [a, b, c, order] of product([0, 1, 2], [0, 1, 2], [true, false], [...sequences(3, 3)].filter(o => new Set(o).size === 3))) if (turn()) {
			const TS = ['t1', 't2', 't11']; w.set(base); const rel: ((x: any) => void)[] = []; session = () => new Promise(r => { rel.push(r); });
			const runs = [[TS[a]!, true], [TS[b]!, c], [TS[b]!, !c]] as [string, boolean][]; const ps: Promise<any>[] = []; for (const [t] of runs) { ps.push(build({ phase: 'validate', repo: R, target: idOf(e0, 's1', t) })); while (rel.length < ps.length) await new Promise(r => setImmediate(r)); }
			const want: Record<string, boolean> = {}; for (const i of order) { rel[i]!({ text: `{"passed": ${runs[i]![1]}}` }); const o = await ps[i]!; if (o.passed !== runs[i]![1]) chk.violation('overlap', `a verdict ${runs[i]![1]} came back as ${o.passed}`, { runs, order }); want[runs[i]![0]] = runs[i]![1]; }
			chk.traces++; chk.nontrivial++; const j = JSON.parse(readFileSync(join(R, recP), 'utf8')); if (canon(Object.fromEntries(j.body.tasks.map((t: any) => [t.id, t.passed]))) !== canon(want)) chk.violation('overlap', `overlapping validations left ${canon(j.body.tasks)}, expected ${canon(want)}`, { runs, order }); w.snap();
		}
		// an interrupted or failing write: the verdict stands, the record is the old or the new one
		for (const mode of ['before', 'torn', 'error'] as const) for (const prior of [0, 1]) for (let at = 0; at < 6; at++) if (turn()) {
			w.set(base); session = async () => ({ text: '{"passed": true}' }); if (prior) await build({ phase: 'validate', repo: R, target: idOf(e0, 's1', 't2') });
			session = async () => ({ text: '{"passed": false}' }); const r: any = await withFault(R, at, mode, () => build({ phase: 'validate', repo: R, target: tgt })); const ctx = { mode, at, prior, log: r.log }; chk.nontrivial++;
			if (mode === 'error' && (r.value?.next !== 'done' || r.value.passed !== false)) chk.violation('fault', `a verdict turned into ${canon(r.value ?? String(r.error))} when its record could not be written`, ctx);
			const p = join(R, recP); let j: any = null; if (existsSync(p)) { try { j = JSON.parse(readFileSync(p, 'utf8')); } catch { chk.violation('fault', 'the record is left torn', ctx); } }
			const tasks = j ? Object.fromEntries(j.body.tasks.map((t: any) => [t.id, t.passed])) : {}; const old = prior ? { t2: true } : {};
			if (canon(tasks) !== canon(old) && canon(tasks) !== canon({ ...old, t1: false })) chk.violation('fault', `after an interrupted write the record holds ${canon(tasks)}`, ctx);
			const again = await build({ phase: 'validate', repo: R, target: tgt }); const j2 = JSON.parse(readFileSync(p, 'utf8')); if (again.next !== 'done' || canon(Object.fromEntries(j2.body.tasks.map((t: any) => [t.id, t.passed]))) !== canon({ ...old, t1: false })) chk.violation('fault', `validating again after an interrupted write leaves ${canon(j2.body.tasks)}`, ctx);
			w.snap();
		}
		void G;
	});
	chk.assumptions.push('the validation session is a stand-in; a triaged feature\'s own tasks (without an epic definition) are not addressed by identifier');
	chk.finish();
});
