// C30: a finished stage yields its artifact exactly when the emitted body is complete, consistent with what is upstream and grounded; otherwise nothing changes.
import { Check, main, THOROUGH, canon, repo, SCRATCH, product, subsets } from '../lib/mc.mts';
import { World, EPIC, OTHER, AD, effHash } from '../lib/wf.mts';
import { readFileSync, existsSync, rmSync } from 'node:fs';
import { createHash } from 'node:crypto';
import { join } from 'node:path';

const J = (x: unknown): string => JSON.stringify(x, null, 2) + '\n', T0 = '2026-01-02T03:04:05.000Z', clone = (x: any): any => JSON.parse(JSON.stringify(x));
const sha16 = (s: string): string => createHash('sha256').update(s).digest('hex').slice(0, 16);
type WF = 'stub' | 'brainstorm' | 'define' | 'design.epic' | 'design.story' | 'plan';
const ATTR = { outputs: [{ role: 'decompose', tier: 'fast', runner: 'ollama', model: 'm1' }, { role: 'synthesize', tier: 'core', runner: 'cli-codex', model: 'm2' }] };
const CITS = [{ id: 'c1', kind: 'doc', ref: 'docs/a.md', quotedText: 'quote of c1' }, { id: 'c2', kind: 'code', ref: 'src/b.ts:3-9' }];
const STORIES = [
	{ id: 's1', title: 'Title s1', userValue: 'value s1', acceptanceCriteria: [{ id: 'ac1', given: 'g1', when: 'w1', then: 't1', operationalizes: [] }, { id: 'ac2', given: 'g2', when: 'w2', then: 't2', operationalizes: [] }], dependsOn: [] as string[] },
	{ id: 's2', title: 'Title s2', userValue: 'value s2', acceptanceCriteria: [{ id: 'ac1', given: 'g', when: 'w', then: 't', operationalizes: [] }], dependsOn: ['s1'] },
	{ id: 's3', title: 'Title s3', userValue: 'value s3', acceptanceCriteria: [{ id: 'ac1', given: 'g', when: 'w', then: 't', operationalizes: [] }], dependsOn: ['s1'] },
];
const alts = (): any[] => [
	{ id: 'a1', name: 'alt one name', oneLineSummary: 'alt one line', approach: 'alt one approach', pros: ['pro one'], cons: ['con one'], costEstimate: 'S' },
	{ id: 'a2', name: 'alt two name', oneLineSummary: 'alt two line', approach: 'alt two approach', pros: ['pro two'], cons: ['con two'], costEstimate: 'L', reasonRejected: 'alt two rejected' },
];
const BODY: Record<WF, () => any> = {
	stub: () => ({ title: 'stub title', summary: 'stub summary [[c1]]', bulletList: ['bullet one [[c2]]', 'bullet two'] }),
	brainstorm: () => ({ category: 'design', intent: 'the intent. More of it.', scopeBoundary: 'the boundary', nonGoals: ['not this', 'dropped a', 'dropped b'], decisions: [{ chosen: 'chosen one', ruledOut: ['dropped a', 'dropped b'], reason: 'reason one' }, { chosen: 'chosen two', ruledOut: [], reason: 'reason two' }], openItems: ['open item'] }),
	define: () => ({
		flavor: 'enhancement', problem: 'the problem [[c1]]. And more.', nonGoals: [{ text: 'nongoal text', rationale: 'nongoal why' }], assumptions: [{ text: 'assumption text', confidence: 'med', source: 'c1' }],
		constraints: [{ id: 'k1', text: 'constraint one', type: 'contract', source: 'c2' }, { id: 'k2', text: 'constraint two', type: 'invariant', source: 'c1' }],
		stories: [
			{ id: 's1', title: 'story one', userValue: 'value one', sizeEstimate: 'M', existingCapabilityRefs: ['c1'], acceptanceCriteria: [{ id: 'ac1', given: 'given one', when: 'when one', then: 'then one', operationalizes: ['k1', 'k3'] }], localConstraints: [{ id: 'k3', text: 'local one', type: 'convention', source: 'c2' }], dependsOn: [] },
			{ id: 's2', title: 'story two', userValue: 'value two', acceptanceCriteria: [{ id: 'ac1', given: 'given two', when: 'when two', then: 'then two', operationalizes: ['k2'] }], dependsOn: ['s1'] },
			{ id: 's3', title: 'story three', userValue: 'value three', acceptanceCriteria: [{ id: 'ac1', given: 'given three', when: 'when three', then: 'then three', operationalizes: [] }] },
		],
		openQuestions: ['open question one'],
	}),
	'design.epic': () => ({
		frameworkSummary: 'framework summary', architectureShape: 'architecture shape',
		sharedContracts: [
			{ id: 'sc1', name: 'contract one', purpose: 'purpose one', interfaceSketch: 'interface One { a: string }', ownedByStory: 's1', consumedByStories: ['s2', 's3'], assumptions: ['c1'] },
			{ id: 'sc2', name: 'contract two', purpose: 'purpose two', interfaceSketch: 'interface Two { b(x: number): void }', ownedByStory: 's2', consumedByStories: [], assumptions: [] },
		],
		storyBoundaries: [{ storyId: 's1', owns: ['sc1'], depends: [], internal: 'internal one' }, { storyId: 's2', owns: ['sc2'], depends: ['sc1'], internal: 'internal two' }, { storyId: 's3', owns: [], depends: ['sc1'], internal: 'internal three' }],
		nonFunctional: { performance: 'nf performance', security: 'nf security', observability: 'nf observability', durability: 'nf durability' },
		rolloutOverview: { phases: [{ name: 'phase one', includesStories: ['s1'], rationale: 'phase why one', backwardCompat: 'phase compat one', featureFlag: 'flag_one' }, { name: 'phase two', includesStories: ['s2', 's3'], rationale: 'phase why two', backwardCompat: 'phase compat two', featureFlag: null }], orderingRationale: 'ordering why', riskyBits: [{ area: 'risk area', why: 'risk why', mitigation: 'risk mitigation' }] },
		alternativesConsidered: alts(), chosenAlternative: 'a1', openQuestions: ['open question hld'],
	}),
	'design.story': () => ({
		hldContextSlice: { frameworkSummary: 'slice framework', rolloutPhase: 'slice phase', ownedContracts: [{ id: 'sc1', name: 'contract one' }], consumedContracts: [{ id: 'sc2', name: 'contract two' }], boundary: {}, nonFunctional: {} },
		contractDetails: { surfaceLevel: 'internal', api: [{ name: 'apiName', signature: 'function f(a: string): void', parameters: [{ name: 'paramName', type: 'paramType', optional: true, purpose: 'param purpose' }], returns: { type: 'returnsType', meaning: 'returns meaning' }, errors: [{ type: 'ErrType', condition: 'err condition' }], preconditions: ['pre one'], postconditions: ['post one'] }] },
		dataModelChanges: [{ entity: 'EntityOne', change: 'field-add', details: 'entity details', schemaDiff: 'schema diff', callSites: ['src/call.ts'] }],
		interactionWithShared: [{ contractId: 'sc1', role: 'implements', howDetails: 'how details' }],
		errorPaths: { errorCases: [{ scenario: 'error scenario', detection: 'error detection', response: 'error response', userImpact: 'error impact', recoverable: true }], edgeCases: [{ input: 'edge input', expected: 'edge expected' }], invariantsToPreserve: [{ text: 'invariant text', source: 'c1' }] },
		testStrategy: { testLevels: [{ level: 'unit', purpose: 'level purpose', subjects: ['subject one'], fixturesNeeded: ['fixture one'] }], acceptanceMapping: [{ criterionId: 'ac1', provingTests: ['proof one'] }, { criterionId: 'ac2', provingTests: ['proof two', 'proof three'] }], testFramework: 'test framework' },
		migration: { stateBefore: 'state before', stateAfter: 'state after', migrationSteps: [{ order: 2, action: 'step two', rollbackable: false }, { order: 1, action: 'step one', rollbackable: true, prerequisiteFlags: ['flag_p'] }], backwardCompat: 'migration compat', zeroDowntime: true, dataRewriteRequired: false },
		alternativesConsidered: alts(), chosenAlternative: 'a2', openQuestions: ['open question lld'],
	}),
	plan: () => ({
		tasks: [
			{ id: 't2', title: 'task two', summary: 'summary two', size: 'L', order: 2, dependsOn: ['t1'], acceptanceChecks: ['check two'], derivedFrom: ['c1', 'c2'], tests: [{ level: 'integration', name: 'test two' }] },
			{ id: 't1', title: 'task one', summary: 'summary one', size: 'S', order: 1, dependsOn: [], acceptanceChecks: ['check one', 'check uno'], derivedFrom: ['c1'], tests: [{ level: 'unit', name: 'test one' }] },
		],
		testStrategyCoverage: [{ lldStrategyItem: 'subject one', coveredByTaskIds: ['t1', 't2'] }],
	}),
};
const WFS = Object.keys(BODY) as WF[];
// what the document need not show, and what the document shows in another form
const UNSHOWN = /^body\.(hldContextSlice\.(boundary|nonFunctional)|alternativesConsidered\.\d+\.(pros|cons|costEstimate)$|chosenAlternative)/;
const LLD_ONLY_UNSHOWN = /alternativesConsidered\.\d+\.(pros|cons)\./;
// free prose: fields a citation reference can stand in
const NOT_PROSE = /(\.|^)(id|type|source|confidence|flavor|category|size|sizeEstimate|level|role|change|costEstimate|storyId|ownedByStory|criterionId|contractId|chosenAlternative|surfaceLevel)$|(consumedByStories|assumptions|owns|depends|dependsOn|includesStories|derivedFrom|operationalizes|existingCapabilityRefs|coveredByTaskIds|localConstraints\.\d+\.source)\.\d+$|^body\.(nonGoals|decisions\.\d+\.ruledOut)\.\d+$|lldStrategyItem$|interfaceSketch$|signature$/;
function* leaves(x: any, path = 'body'): Generator<[string, any]> {
	if (Array.isArray(x)) for (const [i, v] of x.entries()) yield* leaves(v, `${path}.${i}`);
	else if (typeof x === 'object' && x !== null) for (const [k, v] of Object.entries(x)) yield* leaves(v, `${path}.${k}`);
	else yield [path, x];
}
function* nodes(x: any, path: (string | number)[] = []): Generator<(string | number)[]> {
	if (typeof x !== 'object' || x === null) return;
	for (const k of Object.keys(x)) { const p = [...path, Array.isArray(x) ? Number(k) : k]; yield p; yield* nodes(x[k], p); }
}
const put = (root: any, path: (string | number)[], v: any): any => { const r = clone(root); let o = r; for (const k of path.slice(0, -1)) o = o[k]; const k = path[path.length - 1]!; if (v === undefined) { if (Array.isArray(o)) o.splice(Number(k), 1); else delete o[k]; } else o[k] = v; return r; };
const at = (root: any, path: string): any => path.split('.').slice(1).reduce((o, k) => o?.[k], root);
const acyclic = (edges: [string, string][]): boolean => { let es = edges; for (;;) { const out = new Set(es.map(e => e[1])); const left = es.filter(e => [...es].some(f => f[1] === e[0]) || false); void out; if (left.length === es.length) return es.length === 0; es = left; } };
const reach = (edges: [string, string][], a: string, b: string): boolean => { const seen = new Set<string>(), go = (n: string): boolean => edges.some(([x, y]) => x === n && (y === b || (!seen.has(y) && (seen.add(y), go(y))))); return go(a); };

main(async () => {
	const chk = new Check('C30', 'exploration');
	chk.rule = 'a case is non-trivial when an artifact was produced, or one was refused because of the rule under test';
	await chk.sharded(async mine => {
		const O = await repo('src/workflow/orchestrator.ts'), ST = await repo('src/workflow/storage.ts');
		const w = new World(join(SCRATCH, 'w')), R = w.root;
		let job = 0; const turn = (): boolean => mine(job++);
		const meta = (wf: string, run: string, x: any = {}): any => ({ workflow: wf, runId: run, repoPath: R, schemaVersion: 1, createdAt: T0, elapsedMs: 1, approvedAt: T0, repoIndexedAt: null, epicHash: EPIC, epicSlug: 'slug-of-epic', attribution: { outputs: [] }, ...x });
		const DEFJ = `${AD}/DEF-${EPIC}.json`, HLDJ = `${AD}/HLD-${EPIC}.json`, LLDJ = `${AD}/LLD-${EPIC}-s1.json`;
		const def = (x: any = {}, m: any = {}): string => J({ meta: meta('define', 'run-def', m), body: { ...BODY.define(), stories: clone(STORIES), constraints: [], assumptions: [], nonGoals: [], openQuestions: [], problem: 'The problem.', ...x }, citations: [] });
		const hld = (x: any = {}, m: any = {}): string => J({ meta: meta('design.epic', 'run-hld', m), body: { ...BODY['design.epic'](), ...x }, citations: [] });
		const lld = (x: any = {}, m: any = {}): string => J({ meta: meta('design.story', 'run-lld', { storyId: 's1', hldBaseRunId: 'run-hld', hldEffectiveHash: effHash('run-hld', []), hldAmendmentsApplied: [], ...m }), body: { ...BODY['design.story'](), ...x }, citations: [] });
		const amd = (n: number, amendment: any, status: string, epic = EPIC): [string, string] => [`${AD}/AMD-${epic}-${n}.json`, J({ id: `AMD-${epic}-${n}`, epicHash: epic, epicSlug: 'slug-of-epic', hldBaseRunId: 'run-hld', amendment, rationale: 'why', citations: [], proposedBy: { workflow: 'design.story', runId: 'r', storyId: 's1', stepId: 's4' }, proposedAt: T0, status, ...(status === 'approved' ? { approvedAt: T0 } : status === 'rejected' ? { rejectedAt: T0 } : {}) })];
		const BASE = (): Record<string, string> => ({ [DEFJ]: def(), [HLDJ]: hld(), [LLDJ]: lld(), 'src/keep.ts': 'x' });
		const intent = (wf: WF | string, x: any = {}): any => ({ workflow: wf, focus: 'Speed up cached repository reads', repoPath: R, params: { ...(wf === 'design.epic' ? { epicHash: EPIC } : wf === 'design.story' || wf === 'plan' ? { epicHash: EPIC, storyId: 's1' } : {}), ...(x.params ?? {}) }, repoIndexedAt: x.repoIndexedAt === undefined ? 1234 : x.repoIndexedAt, ...(x.focus !== undefined ? { focus: x.focus } : {}) });
		const cacheFile = (epic: string): string => ST.scopeAnalyzeCachePath(epic);
		type Res = { r: any; before: Record<string, string>; after: Record<string, string>; it: any };
		let runSeq = 0, run = '';
		/** finalize over exactly these files; never throws; a refusal leaves the tree as it was */
		const fin = (wf: string, resp: any, o: { files?: Record<string, string>; steps?: any; it?: any; attr?: any; ctx?: any; runId?: string } = {}): Res => {
			const files = o.files ?? BASE(); w.set(files);
			const it = o.it ?? intent(wf); run = o.runId ?? `run-${wf}-${runSeq++}`; chk.evaluations++;
			let r: any, t0 = Date.now();
			try { r = O.finalizeArtifact(it, o.steps ?? {}, run, 77, resp, 'client', 'attr' in o ? o.attr : ATTR); } catch (e) { chk.violation('threw', `finishing "${wf}" throws: ${(e as Error).message}`, o.ctx ?? { wf }); r = { ok: false, failure: { ok: false, kind: 'schema', message: 'x' } }; }
			const after = w.snap(), ctx = { workflow: wf, ...(o.ctx ?? {}) };
			if (r.ok !== true) {
				if (canon(after) !== canon(files)) { chk.violation('refused, yet changed', `a refused "${wf}" changed ${canon(Object.keys({ ...after, ...files }).filter(f => after[f] !== files[f]))}`, ctx); }
				const f = r.failure;
				if (r.ok !== false || f?.ok !== false || !['schema', 'citations', 'boundary'].includes(f.kind) || typeof f.message !== 'string' || f.message === '') chk.violation('refusal', `a refusal without a kind and message: ${canon(r)}`, ctx);
			} else {
				const z = r.finalized, a = z.artifact, m = a.meta;
				if (z.workflow !== wf || m.workflow !== wf) chk.violation('workflow', `artifact of "${wf}" says ${z.workflow}/${m.workflow}`, ctx);
				if (canon(JSON.parse(z.renderedJson)) !== canon(JSON.parse(JSON.stringify(a)))) chk.violation('json', `the JSON is not the artifact`, ctx);
				const wantAttr = 'attr' in o && o.attr === undefined ? undefined : ATTR;
				if (wantAttr === undefined ? !(m.attribution?.outputs?.length === 1 && m.attribution.outputs[0].model === 'client') : canon(m.attribution) !== canon(wantAttr)) chk.violation('attribution', `models recorded as ${canon(m.attribution)}, the run used ${canon(wantAttr ?? 'client')}`, ctx);
				if (m.runId !== run || m.repoPath !== R || m.elapsedMs !== 77 || m.repoIndexedAt !== it.repoIndexedAt || !(Date.parse(m.createdAt) >= t0 - 2 && Date.parse(m.createdAt) <= Date.now() + 2)) chk.violation('meta', `meta ${canon(m)}`, ctx);
				if (m.approvedAt !== undefined || m.rejectedAt !== undefined) chk.violation('born approved', `a new artifact is already ${canon(m)}`, ctx);
				for (const c of a.citations ?? []) if (!z.renderedMd.includes(`[[${c.id}]]`) && wf !== 'define') chk.violation('citation list', `citation ${c.id} is not listed`, ctx);
			}
			return { r, before: files, after, it };
		};
		const resp = (wf: WF, body?: any, citations?: any): any => ({ body: body ?? BODY[wf](), citations: citations ?? clone(CITS) });
		/** the verdict for one rule; `kind` is what a refusal for that rule alone has to say */
		const expect = (x: Res, ok: boolean, kind: string | null, what: string, ctx: any): void => {
			chk.states++;
			if (x.r.ok !== ok) { chk.violation(ok ? 'refused' : 'accepted', `${what}: expected ${ok ? 'an artifact' : 'a refusal'}, got ${ok ? canon(x.r.failure) : 'an artifact'}`, ctx); return; }
			if (!ok && kind !== null && x.r.failure.kind !== kind) chk.violation('kind', `${what}: refused as "${x.r.failure.kind}", expected "${kind}"`, ctx);
			if (!ok && kind !== null && x.r.failure.retryable === false && kind !== 'boundary') chk.violation('retry', `${what}: emitting a better body cannot be tried again`, ctx);
			chk.nontrivial++;
		};
		const sameTree = (x: Res, ctx: any): void => { if (canon(x.after) !== canon(x.before)) chk.violation('side effect', `finishing changed ${canon(Object.keys({ ...x.after, ...x.before }).filter(f => x.after[f] !== x.before[f]))}`, ctx); };
		// the LLD fixture carries a migration: the epic is an enhancement
		const BODY_OK = (wf: WF): any => BODY[wf]();

		// 1. complete bodies: what comes out is what went in, in both renderings
		for (const wf of WFS) {
			if (!turn()) continue;
			for (const attr of [ATTR, undefined]) for (const idx of [null, 99]) {
				const b = BODY_OK(wf), x = fin(wf, resp(wf, b), { attr, it: intent(wf, { repoIndexedAt: idx, params: { specHash: 'feedbeef00112233', sizeClass: 'S', triageRationale: 'why' } }), steps: { s1: { analyzeBundles: [{ id: 'b1' }] } } }), ctx = { workflow: wf };
				expect(x, true, null, `a complete ${wf}`, ctx); if (!x.r.ok) continue;
				sameTree(x, ctx);
				const z = x.r.finalized, md: string = z.renderedMd, a = z.artifact;
				const wantBody = clone(b);
				if (canon(a.body) !== canon(wantBody) || canon(a.citations) !== canon(CITS)) chk.violation('body', `the artifact does not hold what was emitted`, { ...ctx, got: a });
				for (const [p, v] of leaves(b)) {
					if (typeof v !== 'string' || wf === 'define' && /^body\.stories\.\d+\.id$/.test(p) || UNSHOWN.test(p) && !(wf === 'design.epic') || wf !== 'design.epic' && LLD_ONLY_UNSHOWN.test(p)) continue;
					if (!md.includes(v)) chk.violation('not shown', `${p} ("${v}") is not in the document`, ctx);
				}
				if (wf !== 'define' || true) for (const c of CITS) { if (!md.includes(c.ref) || (c.quotedText && !md.includes(c.quotedText))) chk.violation('citation list', `citation ${c.id} (${c.ref}) is not in the document`, ctx); }
				const m = a.meta, anchored: any = { stub: {}, brainstorm: { specHash: sha16(run), epicSlug: m.epicSlug }, define: { epicHash: sha16(run), epicSlug: m.epicSlug, seededFromSpec: 'feedbeef00112233' }, 'design.epic': { epicHash: EPIC, epicSlug: 'slug-of-epic' }, 'design.story': { epicHash: EPIC, epicSlug: 'slug-of-epic', storyId: 's1', hldBaseRunId: 'run-hld', hldEffectiveHash: effHash('run-hld', []), hldAmendmentsApplied: [] }, plan: { epicHash: EPIC, epicSlug: 'slug-of-epic', storyId: 's1', lldRunId: 'run-lld', lldEffectiveHash: effHash('run-hld', []) } }[wf];
				const std = new Set(['workflow', 'runId', 'repoPath', 'createdAt', 'attribution', 'elapsedMs', 'repoIndexedAt', 'schemaVersion']);
				const got = Object.fromEntries(Object.entries(m).filter(([k]) => !std.has(k)));
				if (canon(got) !== canon(anchored)) chk.violation('anchors', `the artifact is tied to ${canon(got)}, expected ${canon(anchored)}`, ctx);
				const ID: any = { stub: null, brainstorm: `SPEC-${sha16(run)}`, define: `DEF-${sha16(run)}`, 'design.epic': `HLD-${EPIC}`, 'design.story': `LLD-${EPIC}-s1`, plan: `PLAN-${EPIC}-s1` };
				if (ID[wf] && !md.split('\n')[0]!.includes(ID[wf])) chk.violation('marker', `the document does not name ${ID[wf]}: ${md.split('\n')[0]}`, ctx);
				if ((wf === 'define' || wf === 'brainstorm') && (typeof m.epicSlug !== 'string' || !/^[a-z0-9]+(-[a-z0-9]+)*$/.test(m.epicSlug))) chk.violation('slug', `slug "${m.epicSlug}"`, ctx);
				if (wf === 'plan') { const i1 = md.indexOf('task one'), i2 = md.indexOf('task two'); if (!(i1 >= 0 && i1 < i2)) chk.violation('order', `tasks are not in their order`, ctx); }
				if (wf === 'design.story') { if (!(md.indexOf('step one') < md.indexOf('step two'))) chk.violation('order', `migration steps are not in their order`, ctx); }
				if (wf === 'define') {
					const c = cacheFile(sha16(run));
					if (!existsSync(c) || canon(JSON.parse(readFileSync(c, 'utf8')).analyzeBundles) !== canon([{ id: 'b1' }])) chk.violation('analysis kept', `the scope analysis of the epic is not kept for the design`, ctx);
					rmSync(c, { force: true });
				}
				// the schema the model is given admits the body that is accepted
				const sp = O.prepareSynthesize(x.it, { s1: { marker: 'step output marker' }, s5: { marker: 'step output marker' } }), bs = sp.schema.properties.body;
				for (const k of Object.keys(b)) if (!bs.properties[k]) chk.violation('schema', `the schema for "${wf}" does not allow "${k}"`, ctx);
				for (const k of bs.required) if (!(k in b)) chk.violation('schema', `the schema for "${wf}" requires "${k}"`, ctx);
				if (!sp.userTurn.includes('step output marker') || !sp.userTurn.includes('Speed up cached')) chk.violation('prompt', `the request for "${wf}" lacks the focus or the step outputs`, ctx);
			}
			// empty focus, odd focus
			for (const focus of ['', 'the of a', '¿?', 'x', '../../etc', 'A'.repeat(300), undefined as any]) {
				const it = { ...intent(wf), focus }, x = fin(wf, resp(wf), { it, ctx: { workflow: wf, focus } });
				expect(x, true, null, `a complete ${wf} with the focus ${JSON.stringify(focus)}`, { workflow: wf, focus });
				if (x.r.ok && (wf === 'define' || wf === 'brainstorm') && !/^[a-z0-9]+(-[a-z0-9]+)*$/.test(x.r.finalized.artifact.meta.epicSlug)) chk.violation('slug', `focus ${JSON.stringify(focus)} gives the slug "${x.r.finalized.artifact.meta.epicSlug}"`, { workflow: wf, focus });
			}
		}

		// 2. every field missing or of another type: an answer always comes, a half body is never rendered
		const JUNK: any[] = [undefined, null, 7, 'x', [], {}, [null], ['x'], true];
		const DEEP = new Set<WF>(['brainstorm', 'design.epic']), OPTIONAL = /reasonRejected$|sizeEstimate$|existingCapabilityRefs|localConstraints|dependsOn|quotedText|nonFunctional\.|schemaDiff|fixturesNeeded|prerequisiteFlags|featureFlag$/;
		const type = (v: any): string => v === null ? 'null' : Array.isArray(v) ? 'array' : typeof v;
		for (const wf of WFS) {
			const full = resp(wf);
			for (const p of nodes(full)) for (const v of JUNK) {
				if (!turn()) continue;
				const path = p.join('.'), mut = put(full, p, v), ctx = { workflow: wf, field: path, value: v === undefined ? '(missing)' : v };
				const x = fin(wf, mut, { ctx });
				chk.states++;
				const old = at({ ...full }, 'x.' + path), ofArray = typeof p[p.length - 1] === 'number';
				// fields every body needs, and the fields of the bodies that are checked in depth
				const top = p.length <= 2 && p[0] === 'body' || p.length === 1 || path.startsWith('citations.') && /\.(id|kind|ref)$/.test(path);
				const need = (top || DEEP.has(wf) && p[0] === 'body') && !OPTIONAL.test(path) && path !== 'body.migration' && !(path === 'body.nonFunctional' && Array.isArray(v)) && !(ofArray && v === undefined) && type(v) !== type(old);
				if (need) { chk.nontrivial++; if (x.r.ok) chk.violation('accepted', `"${path}" ${v === undefined ? 'missing' : `= ${JSON.stringify(v)}`} is accepted`, ctx); else if (x.r.failure.retryable === false) chk.violation('retry', `a malformed body cannot be tried again`, ctx); }
				if (x.r.ok) { if (canon(x.r.finalized.artifact.body) !== canon(JSON.parse(JSON.stringify(mut.body))) && wf !== 'design.epic') chk.violation('body', `the artifact does not hold what was emitted`, ctx); sameTree(x, ctx); }
			}
			for (const v of [null, undefined, 7, 'x', [], {}, true]) { const x = fin(wf, v, { ctx: { workflow: wf, response: v } }); chk.states++; chk.nontrivial++; if (x.r.ok) chk.violation('accepted', `${JSON.stringify(v)} is accepted as ${wf}`, { workflow: wf }); }
		}

		// 3. grounding: a reference without a citation is refused wherever the document shows it; citation lists are well formed
		for (const wf of WFS) {
			const b = BODY_OK(wf);
			for (const [p, v] of leaves(b)) {
				if (typeof v !== 'string' || NOT_PROSE.test(p)) continue;
				for (const [ref, ok] of [['[[c1]]', true], ['[[c9]]', false], ['[[c1]] and [[c12]]', false], ['[[c2]][[c1]]', true]] as const) {
					if (!turn()) continue;
					const x = fin(wf, resp(wf, put({ body: b }, p.split('.').map(k => /^\d+$/.test(k) ? Number(k) : k), `${v} ${ref}`).body), { ctx: { workflow: wf, field: p, ref } });
					const shown = fin(wf, resp(wf, put({ body: b }, p.split('.').map(k => /^\d+$/.test(k) ? Number(k) : k), `${v} QQTOKEN`).body), { ctx: { workflow: wf, field: p } });
					if (shown.r.ok && shown.r.finalized.renderedMd.includes('QQTOKEN')) expect(x, ok, 'citations', `"${ref}" in ${p}`, { workflow: wf, field: p, ref });
				}
			}
			const ids = ['c1', 'c2', 'c3', 'c1', 'C1', 'x', '1', 'c', 'c1 '];
			for (const l of subsets(ids.map((_, i) => i))) {
				if (l.length > (THOROUGH ? 4 : 3) || !turn()) continue;
				const cs = l.map(i => ({ id: ids[i]!, kind: 'doc', ref: `r${i}` }));
				const body = wf === 'plan' ? { ...b, tasks: b.tasks.map((t: any) => ({ ...t, derivedFrom: [...new Set(cs.map(c => c.id))] })) } : b;
				const has = new Set(cs.map(c => c.id)), wellFormed = cs.every(c => /^c\d+$/.test(c.id)) && has.size === cs.length;
				const used = { stub: ['c1', 'c2'], brainstorm: [], define: ['c1', 'c2'], 'design.epic': ['c1'], 'design.story': ['c1'], plan: [] }[wf];
				const ok = wellFormed && used.every(c => has.has(c)) && !(wf === 'plan' && cs.length === 0);
				expect(fin(wf, resp(wf, body, cs), { ctx: { workflow: wf, citations: cs.map(c => c.id) } }), ok, wf === 'plan' ? null : 'citations', `citations ${canon(cs.map(c => c.id))} for references to ${canon(used)}`, { workflow: wf });
			}
		}

		// 4. audits: a failed scope-boundary item stops the artifact for good, with what the audit said; other items do not
		const AUD: Record<string, { step: string; ids: string[]; findings: boolean }> = { define: { step: 's4', ids: ['sb1', 'sb2', 'sb3'], findings: true }, 'design.epic': { step: 's6', ids: ['sbdry1', 'sbdry2', 'sbdry3', 'sbdry4'], findings: false }, 'design.story': { step: 's8', ids: ['sbdry1', 'sbdry2', 'sbdry3', 'sbdry4'], findings: true }, standalone: { step: 's8', ids: ['sbdry1', 'sbdry2', 'sbdry3', 'sbdry4'], findings: true } };
		const VERD = ['passed', 'missed', 'ambiguous', 'n/a'];
		for (const [name, au] of Object.entries(AUD)) {
			const wf = (name === 'standalone' ? 'design.story' : name) as WF, items = [...au.ids, 'sb9', 'x1'];
			for (const [i, a] of items.entries()) for (const b of items.slice(i)) for (const [va, vb] of product(VERD, VERD)) for (const det of [0, 1, 2]) {
				if (!turn()) continue;
				const row = (id: string, v: string): any => ({ itemId: id, verdict: v, ...(det === 0 ? { evidence: `ev ${id}`, notes: `note ${id}` } : det === 1 ? { notes: `note ${id}` } : {}) });
				const rows = [row('q', 'passed'), row(a, va), ...(b !== a ? [row(b, vb)] : [])], bad = rows.filter(r => au.ids.includes(r.itemId) && (r.verdict === 'missed' || r.verdict === 'ambiguous'));
				const ctx = { workflow: name, audit: rows }, x = fin(wf, resp(wf), { steps: { [au.step]: { results: rows } }, it: intent(wf, name === 'standalone' ? { params: { standalone: true } } : {}), ctx });
				expect(x, bad.length === 0, 'boundary', `audit ${canon(rows.map(r => [r.itemId, r.verdict]))}`, ctx);
				if (bad.length && !x.r.ok) {
					const f = x.r.failure;
					if (f.retryable !== false) chk.violation('retry', `a failed audit is offered for a plain retry`, ctx);
					if (bad.some(r => !f.message.includes(r.itemId))) chk.violation('which', `the refusal names not all of ${canon(bad.map(r => r.itemId))}: ${f.message}`, ctx);
					if (au.findings) {
						const want = bad.map(r => [r.itemId, r.verdict, r.evidence ?? r.notes ?? null]), got = (f.findings ?? []).map((g: any, k: number) => [g.itemId, g.verdict, want[k]?.[2] === null ? null : g.detail]);
						if (canon(got) !== canon(want) || f.correctable !== true) chk.violation('findings', `the audit found ${canon(want)}, reported ${canon(got)}, correctable ${f.correctable}`, ctx);
					}
				}
			}
		}

		// 5. define: every dependency graph over three stories, every use of constraints
		const DEPS = [...subsets(['s1', 's2', 's3', 's9'])];
		for (const d1 of DEPS) for (const d2 of DEPS) {
			if (!turn()) continue;
			for (const d3 of DEPS) {
				const b = BODY.define(), deps = [d1, d2, d3]; b.stories.forEach((s: any, i: number) => { if (deps[i]!.length || i === 1) s.dependsOn = deps[i]; else delete s.dependsOn; });
				const edges: [string, string][] = deps.flatMap((l, i) => l.filter(d => d !== 's9').map(d => [`s${i + 1}`, d] as [string, string])), ok = deps.every(l => !l.includes('s9')), ac = acyclic(edges), ctx = { deps };
				const x = fin('define', resp('define', b), { files: {}, ctx });
				expect(x, ok && ac, 'schema', `stories depending on ${canon(deps)}`, ctx);
				if (!x.r.ok) {
					const ds: string[] = x.r.failure.details ?? [];
					for (const [i, l] of deps.entries()) if (l.includes('s9') && !ds.some(d => d.includes(`s${i + 1}`) && d.includes('s9'))) chk.violation('which', `s${i + 1} depends on an unknown story, not reported: ${canon(ds)}`, ctx);
					for (const d of ds.filter(d => /cycle/i.test(d))) {
						const seq = [...d.matchAll(/\bs\d\b/g)].map(m => m[0]), last = seq[seq.length - 1], from = seq.indexOf(last!), cyc = seq.slice(from);
						if (/->|→/.test(d) && (cyc.length < 2 || cyc.slice(1).some((n, k) => !edges.some(e => e[0] === cyc[k] && e[1] === n)))) chk.violation('false cycle', `"${d}" is not a cycle of ${canon(edges)}`, ctx);
					}
					if (ac && ds.some(d => /cycle/i.test(d))) chk.violation('false cycle', `a cycle is reported in ${canon(edges)}: ${canon(ds)}`, ctx);
					if (!ac && !ds.some(d => /cycle/i.test(d))) chk.violation('which', `the cycle in ${canon(edges)} is not reported: ${canon(ds)}`, ctx);
				}
			}
		}
		const OPS = [...subsets(['k1', 'k3', 'k4', 'k9'])];
		for (const o1 of OPS) { if (!turn()) continue; for (const o2 of OPS) for (const loc of [true, false]) {
			const b = BODY.define(); b.stories[0].acceptanceCriteria[0].operationalizes = o1; b.stories[1].acceptanceCriteria[0].operationalizes = o2;
			if (loc) { b.stories[0].localConstraints = [{ id: 'k3', text: 't', type: 'contract', source: 'c1' }]; b.stories[1].localConstraints = [{ id: 'k4', text: 't', type: 'contract', source: 'c1' }]; } else { delete b.stories[0].localConstraints; }
			const ok = o1.every(k => k === 'k1' || loc && k === 'k3') && o2.every(k => k === 'k1' || loc && k === 'k4');
			expect(fin('define', resp('define', b), { files: {}, ctx: { o1, o2, loc } }), ok, 'schema', `criteria operationalizing ${canon([o1, o2])} (local constraints: ${loc ? 'k3 on s1, k4 on s2' : 'none'})`, { o1, o2, loc });
		} }
		for (const [wf, bad] of [['define', 'see\n```ts\nlet a = 1;\n```\n'], ['define', 'see\n```\nlet a\n```\n'], ['design.epic', 'todo\n- [ ] first\n'], ['design.epic', 'todo\n   - [] first\n']] as [WF, string][]) for (const [p, v] of leaves(BODY[wf]())) {
			if (typeof v !== 'string' || NOT_PROSE.test(p) || /featureFlag|constraints\.\d+\.text|riskyBits/.test(p) || !turn()) continue;
			const path = p.split('.').map(k => /^\d+$/.test(k) ? Number(k) : k), shown = fin(wf, resp(wf, put({ body: BODY[wf]() }, path, `${v} QQTOKEN`).body)), x = fin(wf, resp(wf, put({ body: BODY[wf]() }, path, `${v}\n${bad}`).body), { ctx: { workflow: wf, field: p, bad } });
			if (shown.r.ok && shown.r.finalized.renderedMd.includes('QQTOKEN')) expect(x, false, 'boundary', `${JSON.stringify(bad)} in ${p} of ${wf}`, { workflow: wf, field: p });
		}

		// 6. design.epic: ownership, consumers against every story graph, boundaries, rollout
		const IDS = ['s1', 's2', 's3'], PAIRS: [string, string][] = IDS.flatMap(a => IDS.filter(b => b !== a).map(b => [a, b] as [string, string]));
		const DAGS = [...subsets(PAIRS)].filter(g => acyclic(g));
		const SUB3 = [...subsets(IDS)];
		for (const g of DAGS) {
			if (!turn()) continue;
			const files = { [DEFJ]: def({ stories: STORIES.map(s => ({ ...s, dependsOn: g.filter(e => e[0] === s.id).map(e => e[1]) })) }) };
			const firstConsumers = THOROUGH ? SUB3 : SUB3;
			for (const o1 of IDS) for (const c1 of firstConsumers) for (const o2 of IDS) for (const c2 of SUB3) {
				if (!THOROUGH && (o1 > o2 || (o1 === o2 && canon(c1) > canon(c2)))) continue;
				const b = BODY['design.epic']();
				b.sharedContracts[0].ownedByStory = o1; b.sharedContracts[0].consumedByStories = c1; b.sharedContracts[1].ownedByStory = o2; b.sharedContracts[1].consumedByStories = c2;
				for (const s of b.storyBoundaries) { s.owns = [...(s.storyId === o1 ? ['sc1'] : []), ...(s.storyId === o2 ? ['sc2'] : [])]; s.depends = ['sc2', 'sc9'].slice(0, (c1.length + c2.length) % 3); }
				const ok = ([[o1, c1], [o2, c2]] as const).every(([o, cs]) => cs.every(c => c === o || reach(g, c, o))), ctx = { stories: g, sc1: [o1, c1], sc2: [o2, c2] };
				const x = fin('design.epic', resp('design.epic', b), { files, ctx });
				expect(x, ok, 'schema', `contracts ${canon([[o1, c1], [o2, c2]])} over stories depending ${canon(g)}`, ctx);
				if (x.r.ok) {
					const want = clone(b); for (const s of want.storyBoundaries) s.depends = [...(c1.includes(s.storyId) && s.storyId !== o1 ? ['sc1'] : []), ...(c2.includes(s.storyId) && s.storyId !== o2 ? ['sc2'] : [])];
					if (canon(x.r.finalized.artifact.body) !== canon(want)) chk.violation('depends', `the boundaries depend on ${canon(x.r.finalized.artifact.body.storyBoundaries.map((s: any) => s.depends))}, expected ${canon(want.storyBoundaries.map((s: any) => s.depends))}`, ctx);
				} else if (!(x.r.failure.details ?? []).some((d: string) => ([['sc1', o1, c1], ['sc2', o2, c2]] as const).some(([id, o, cs]) => cs.some(c => c !== o && !reach(g, c, o) && d.includes(id) && d.includes(c))))) chk.violation('which', `the refusal does not say which contract: ${canon(x.r.failure.details)}`, ctx);
			}
		}
		const OWN = [...subsets(['sc1', 'sc2'])];
		for (const l of product(OWN, OWN, OWN)) { if (!turn()) continue; for (const [o1, o2] of product([...IDS, 's9'], IDS)) {
			const b = BODY['design.epic'](); b.sharedContracts.forEach((c: any) => { c.consumedByStories = []; }); b.sharedContracts[0].ownedByStory = o1; b.sharedContracts[1].ownedByStory = o2; b.storyBoundaries.forEach((s: any, i: number) => { s.owns = l[i]!; });
			const ok = ([['sc1', o1], ['sc2', o2]] as const).every(([c, o]) => { const own = IDS.filter((_, i) => l[i]!.includes(c)); return own.length === 1 && own[0] === o; });
			expect(fin('design.epic', resp('design.epic', b), { ctx: { owns: l, owners: [o1, o2] } }), ok, 'schema', `boundaries owning ${canon(l)}, contracts owned by ${o1} and ${o2}`, { owns: l });
		} }
		const INC = [...subsets([...IDS, 's9'])];
		for (const p1 of INC) { if (!turn()) continue; for (const p2 of INC) for (const third of [false, true]) {
			const b = BODY['design.epic'](); b.rolloutOverview.phases[0].includesStories = p1; b.rolloutOverview.phases[1].includesStories = p2; if (third) b.rolloutOverview.phases.push({ ...b.rolloutOverview.phases[0], name: 'phase three', includesStories: ['s3'] });
			const n = (s: string): number => [...p1, ...p2, ...(third ? ['s3'] : [])].filter(x => x === s).length, ok = n('s9') === 0 && IDS.every(s => n(s) === 1);
			expect(fin('design.epic', resp('design.epic', b), { ctx: { p1, p2, third } }), ok, 'schema', `phases ${canon([p1, p2, third])}`, { p1, p2 });
		} }
		if (turn()) for (const bs of SUB3) for (const cons of [[], ['s9']]) {
			const b = BODY['design.epic'](); b.sharedContracts = cons.length ? [{ ...b.sharedContracts[0], consumedByStories: cons }] : []; b.storyBoundaries = b.storyBoundaries.filter((s: any) => bs.includes(s.storyId)); for (const s of b.storyBoundaries) s.owns = cons.length && s.storyId === 's1' ? ['sc1'] : [];
			expect(fin('design.epic', resp('design.epic', b), { ctx: { boundaries: bs, cons } }), bs.length === 3 && cons.length === 0, 'schema', `boundaries for ${canon(bs)} only, consumers ${canon(cons)}`, { bs });
		}
		if (turn()) for (const [sk, ok] of [['interface X { f(): string }', true], ['type R = { returnType: string }', true], ['type F = (a: string) => Promise<void>', true], ['function f() { return 1 }', false], ['f() { console.log(1) }', false], ['const f = () => { x = 1; }', false], ['', true]] as const) for (const i of [0, 1]) {
			const b = BODY['design.epic'](); b.sharedContracts[i].interfaceSketch = sk; expect(fin('design.epic', resp('design.epic', b), { ctx: { sketch: sk } }), ok, 'schema', `interface sketch "${sk}"`, { sk });
		}
		if (turn()) for (const wf of ['design.epic', 'design.story'] as const) for (const ch of ['a1', 'a2', 'a3', '', 'A1']) for (const st of wf === 'design.story' ? [false, true] : [false]) { const b = BODY[wf](); b.chosenAlternative = ch; expect(fin(wf, resp(wf, b), { it: intent(wf, st ? { params: { standalone: true } } : {}), ctx: { workflow: wf, chosen: ch } }), ch === 'a1' || ch === 'a2', 'schema', `chosen alternative "${ch}"`, { wf, ch }); }

		// 7. upstream: absent, not approved, rejected
		const STATES: [string, (t: string) => string | null][] = [['approved', t => t], ['absent', () => null], ['not approved', t => { const j = JSON.parse(t); delete j.meta.approvedAt; return J(j); }], ['unapproved again', t => { const j = JSON.parse(t); j.meta.approvedAt = ''; return J(j); }], ['rejected', t => { const j = JSON.parse(t); delete j.meta.approvedAt; j.meta.rejectedAt = T0; return J(j); }], ['garbled', t => t.slice(0, t.length / 2)]];
		for (const [sd, fd] of STATES) for (const [sh, fh] of STATES) for (const [sl, fl] of STATES) {
			if (!turn()) continue;
			const files: Record<string, string> = { 'src/keep.ts': 'x' }; for (const [f, g] of [[DEFJ, fd], [HLDJ, fh], [LLDJ, fl]] as const) { const t = g(BASE()[f]!); if (t !== null) files[f] = t; }
			for (const wf of WFS) {
				const ok = wf === 'design.epic' ? sd === 'approved' : wf === 'design.story' ? sd === 'approved' && sh === 'approved' : wf === 'plan' ? sl === 'approved' && !(sh === 'absent' || sh === 'garbled') : true;
				const ctx = { workflow: wf, define: sd, hld: sh, lld: sl };
				expect(fin(wf, resp(wf), { files, ctx }), ok, null, `${wf} with the epic ${sd}, the HLD ${sh}, the LLD ${sl}`, ctx);
				if (wf === 'design.story') expect(fin(wf, resp(wf), { files, it: intent(wf, { params: { standalone: true } }), ctx }), true, null, `a standalone design with the epic ${sd}, the HLD ${sh}`, ctx);
			}
		}
		if (turn()) for (const wf of ['design.epic', 'design.story', 'plan'] as const) for (const epicHash of [undefined, '', 'xyz', EPIC.toUpperCase() + 'A', OTHER, '../x', 7]) { const it = intent(wf, { params: { epicHash } }); expect(fin(wf, resp(wf), { it, ctx: { wf, epicHash } }), false, null, `${wf} for the epic ${JSON.stringify(epicHash)}`, { wf, epicHash }); }
		if (turn()) for (const wf of ['design.story', 'plan'] as const) for (const storyId of [undefined, '', 's9', 's2', 7]) { const it = intent(wf, { params: { storyId } }); const x = fin(wf, resp(wf), { it, ctx: { wf, storyId } }); expect(x, false, null, `${wf} for the story ${JSON.stringify(storyId)}`, { wf, storyId }); }

		// 8. design.story: acceptance mapping, shared contracts under amendments, migrations, signatures
		const ROWS = [['ac1', ['p']], ['ac1', []], ['ac2', ['p', 'q']], ['ac2', []], ['ac3', ['p']]] as const;
		for (const l of subsets([0, 1, 2, 3, 4])) for (const st of [false, true]) {
			if (!turn()) continue;
			const b = BODY['design.story'](); b.testStrategy.acceptanceMapping = l.map(i => ({ criterionId: ROWS[i]![0], provingTests: [...ROWS[i]![1]] }));
			const proven = (c: string): boolean => l.some(i => ROWS[i]![0] === c && ROWS[i]![1].length > 0);
			expect(fin('design.story', resp('design.story', b), { it: intent('design.story', st ? { params: { standalone: true } } : {}), ctx: { mapping: b.testStrategy.acceptanceMapping, st } }), st || (proven('ac1') && proven('ac2') && !l.includes(4)), 'schema', `${st ? 'standalone ' : ''}acceptance mapping ${canon(l.map(i => ROWS[i]))}`, { l });
		}
		const AM: [string, any][] = [['reassign', { type: 'storyBoundary.reassignOwnership', contractId: 'sc2', oldOwner: 's2', newOwner: 's1', rationale: 'r' }], ['consumer', { type: 'storyBoundary.addConsumer', contractId: 'sc2', consumer: 's1' }]];
		const AMSETS: { name: string; files: [string, string][]; ids: string[]; owner2: string }[] = [
			{ name: 'none', files: [], ids: [], owner2: 's2' }, { name: 'pending', files: [amd(1, AM[0]![1], 'pending')], ids: [], owner2: 's2' }, { name: 'rejected', files: [amd(1, AM[0]![1], 'rejected')], ids: [], owner2: 's2' },
			{ name: 'approved', files: [amd(1, AM[0]![1], 'approved')], ids: [`AMD-${EPIC}-1`], owner2: 's1' }, { name: 'ten', files: [amd(10, AM[0]![1], 'approved'), amd(2, AM[1]![1], 'approved')], ids: [`AMD-${EPIC}-2`, `AMD-${EPIC}-10`], owner2: 's1' }, { name: 'of another epic', files: [amd(1, AM[0]![1], 'approved', OTHER)], ids: [], owner2: 's2' },
		];
		const INTER = [...product(['sc1', 'sc2', 'sc9'], ['implements', 'consumes'])];
		for (const am of AMSETS) for (const l of [[], ...INTER.map((_, i) => [i]), ...product(INTER.map((_, i) => i), INTER.map((_, i) => i))] as number[][]) {
			if (!turn()) continue;
			const b = BODY['design.story'](); b.interactionWithShared = l.map(i => ({ contractId: INTER[i]![0], role: INTER[i]![1], howDetails: 'h' }));
			const ok = l.every(i => { const [c, r] = INTER[i]!; return c !== 'sc9' && (r === 'consumes' || (c === 'sc1' ? 's1' : am.owner2) === 's1'); }), ctx = { amendments: am.name, interaction: b.interactionWithShared };
			const x = fin('design.story', resp('design.story', b), { files: { ...BASE(), ...Object.fromEntries(am.files) }, ctx });
			expect(x, ok, 'schema', `interaction ${canon(l.map(i => INTER[i]))} with amendments: ${am.name}`, ctx);
			if (x.r.ok) { sameTree(x, ctx); const m = x.r.finalized.artifact.meta; if (canon(m.hldAmendmentsApplied) !== canon(am.ids) || m.hldEffectiveHash !== effHash('run-hld', am.ids) || m.hldBaseRunId !== 'run-hld') chk.violation('anchors', `the design is tied to ${canon([m.hldAmendmentsApplied, m.hldEffectiveHash.slice(0, 8)])}, expected ${canon(am.ids)}`, ctx); }
		}
		if (turn()) for (const flavor of ['enhancement', 'new-capability']) for (const mig of [true, false]) for (const st of [false, true]) for (const s7 of [undefined, { skipped: true }, { skipped: false }]) {
			const b = BODY['design.story'](); if (!mig) delete b.migration;
			expect(fin('design.story', resp('design.story', b), { files: { ...BASE(), [DEFJ]: def({ flavor }) }, steps: s7 ? { s7 } : {}, it: intent('design.story', st ? { params: { standalone: true } } : {}), ctx: { flavor, mig, st } }), st || mig === (flavor === 'enhancement'), 'schema', `${st ? 'standalone ' : ''}${flavor} ${mig ? 'with' : 'without'} a migration`, { flavor, mig, st });
		}
		if (turn()) for (const [sig, ok] of [['function f(): void', true], ['type A = { returnValue: string }', true], ['f(): { a: string; b: number }', true], ['function f() { return 1; }', false], ['f = () => {\n  return x;\n}', false]] as const) for (const st of [false, true]) { const b = BODY['design.story'](); b.contractDetails.api.push({ ...b.contractDetails.api[0], name: 'second', signature: sig }); expect(fin('design.story', resp('design.story', b), { it: intent('design.story', st ? { params: { standalone: true } } : {}), ctx: { sig, st } }), ok, 'schema', `signature ${JSON.stringify(sig)}`, { sig, st }); }
		// standalone designs carry where they come from
		if (turn()) for (const sizeClass of [undefined, 'trivial', 'small', 'feature', 'epic', 'nonsense', 7]) for (const why of [undefined, 'because', 7]) for (const spec of [undefined, 'feedbeef00112233', '']) {
			const ctx = { sizeClass, why, spec }, x = fin('design.story', resp('design.story'), { files: {}, it: intent('design.story', { params: { standalone: true, epicHash: OTHER, storyId: 's1', sizeClass, triageRationale: why, specHash: spec } }), ctx });
			expect(x, true, null, 'a standalone design', ctx); if (!x.r.ok) continue; sameTree(x, ctx);
			const m = x.r.finalized.artifact.meta, known = (await repo('src/workflow/triage/types.ts')).SIZE_CLASSES.includes(sizeClass);
			if (m.standalone !== true || m.epicHash !== OTHER || m.storyId !== 's1' || m.sizeClass !== (known ? sizeClass : undefined) || m.triageRationale !== (why === 'because' ? why : undefined) || m.seededFromSpec !== (spec ? spec : undefined)) chk.violation('provenance', `a standalone design from ${canon(ctx)} records ${canon(m)}`, ctx);
			if (spec && !x.r.finalized.renderedMd.includes(spec)) chk.violation('provenance', `the document does not name its spec`, ctx);
		}
		if (turn()) for (const spec of [undefined, 'feedbeef00112233', '', 7]) { const x = fin('define', resp('define'), { files: {}, it: intent('define', { params: { specHash: spec } }) }); expect(x, true, null, 'an epic from a spec', { spec }); const has = typeof spec === 'string' && spec !== ''; if (x.r.ok && (x.r.finalized.artifact.meta.seededFromSpec !== (has ? spec : undefined) || has !== x.r.finalized.renderedMd.includes('SPEC-'))) chk.violation('provenance', `an epic from the spec ${JSON.stringify(spec)} records ${canon(x.r.finalized.artifact.meta)}`, { spec }); }

		// 9. design.story: proposals to amend the HLD
		const ok1 = { type: 'storyBoundary.addConsumer', contractId: 'sc2', consumer: 's1' }, ok2 = { type: 'sharedContract.fieldAdd', contractId: 'sc1', field: { name: 'z', type: 'string', optional: true, purpose: 'p' }, breaking: false };
		const PROP: [string, any, any | null][] = [['none', undefined, null], ['empty', { hld: {} }, null], ['null', { hld: { amendmentProposal: null } }, null], ['consumer', { hld: { amendmentProposal: { amendment: ok1, rationale: 'r1', citations: [{ id: 'c1', kind: 'doc', ref: 'x' }] } } }, ok1], ['field', { hld: { amendmentProposal: { amendment: ok2, rationale: 'r2' } } }, ok2],
			['unknown contract', { hld: { amendmentProposal: { amendment: { ...ok1, contractId: 'sc9' }, rationale: 'r' } } }, null], ['no such type', { hld: { amendmentProposal: { amendment: { type: 'x.y' }, rationale: 'r' } } }, null], ['no rationale', { hld: { amendmentProposal: { amendment: ok1 } } }, null], ['half an amendment', { hld: { amendmentProposal: { amendment: { type: 'rollout.splitPhase' }, rationale: 'r' } } }, null], ['text', { hld: { amendmentProposal: 'x' } }, null]];
		const HAVE: [string, [string, string][], number][] = [['none', [], 1], ['one pending', [amd(1, ok2, 'pending')], 2], ['gap', [amd(3, ok2, 'rejected')], 4], ['ten', [amd(9, ok2, 'rejected'), amd(10, ok2, 'rejected')], 11], ['of another epic', [amd(5, ok1, 'approved', OTHER)], 1]];
		for (const p4 of PROP) for (const p5 of PROP) for (const have of HAVE) for (const bad of [false, true]) for (const st of [false, true]) {
			if (!turn()) continue;
			if (st && (have[0] !== 'none')) continue;
			const files = { ...BASE(), ...Object.fromEntries(have[1]) }, b = BODY['design.story'](); if (bad) b.chosenAlternative = 'a7';
			const ctx = { s4: p4[0], s5: p5[0], existing: have[0], bad, st }, x = fin('design.story', resp('design.story', b), { files, steps: { ...(p4[1] ? { s4: p4[1] } : {}), ...(p5[1] ? { s5: p5[1] } : {}) }, it: intent('design.story', st ? { params: { standalone: true } } : {}), ctx });
			expect(x, !bad, 'schema', `a design with proposals ${p4[0]}, ${p5[0]}`, ctx);
			if (!x.r.ok) continue;
			const want = st ? [] : [['s4', p4], ['s5', p5]].filter(([, p]: any) => p[2] !== null) as any[], added = Object.keys(x.after).filter(f => !(f in files)), changed = Object.keys(files).filter(f => x.after[f] !== files[f]);
			if (changed.length) chk.violation('side effect', `proposing changed ${canon(changed)}`, ctx);
			const wantFiles = want.map((_, i) => `${AD}/AMD-${EPIC}-${have[2] + i}.json`);
			if (canon(added.sort()) !== canon([...wantFiles].sort())) { chk.violation('proposals', `proposed ${canon(want.map(p => p[1][0]))}, on disk appear ${canon(added)}`, ctx); continue; }
			for (const [i, f] of wantFiles.entries()) {
				const a = JSON.parse(x.after[f]!), [step, p] = want[i]!, pr = p[1].hld.amendmentProposal;
				if (a.id !== f.split('/').pop()!.slice(0, -5) || a.status !== 'pending' || a.approvedAt !== undefined || canon(a.amendment) !== canon(p[2]) || a.rationale !== pr.rationale || canon(a.citations) !== canon(pr.citations ?? []) || a.epicHash !== EPIC || a.hldBaseRunId !== 'run-hld' || canon(a.proposedBy) !== canon({ workflow: 'design.story', runId: run, storyId: 's1', stepId: step })) chk.violation('proposal', `the proposal of ${step} is recorded as ${canon(a)}`, ctx);
			}
		}

		// 10. plan: every dependency graph and order over three tasks, grounding, test coverage
		const TD = [...subsets(['t1', 't2', 't3', 't9'])], ORD = [[1, 2, 3], [3, 2, 1], [2, 1, 3], [1, 1, 2], [1, 2, 2]];
		for (const d1 of TD) for (const d2 of TD) {
			if (!turn()) continue;
			for (const d3 of TD) for (const ord of ORD) {
				const deps = [d1, d2, d3]; if (!THOROUGH && deps.filter(d => d.includes('t9')).length > 1) continue;
				const b = BODY.plan(); b.tasks = deps.map((d, i) => ({ id: `t${i + 1}`, title: `T${i}`, summary: 's', size: 'S', order: ord[i], dependsOn: d, acceptanceChecks: ['k'], derivedFrom: ['c1', 'c2'], tests: [{ level: 'unit', name: 'n' }] }));
				const o = (t: string): number => ord[Number(t[1]) - 1]!, ok = deps.every((l, i) => l.every(d => d !== 't9' && o(d) < ord[i]!)), ctx = { deps, ord };
				expect(fin('plan', resp('plan', b), { ctx }), ok, 'schema', `tasks depending on ${canon(deps)} in the order ${canon(ord)}`, ctx);
			}
		}
		const DF = [...subsets(['c1', 'c2', 'c9'])], CS = [['c1'], ['c1', 'c2'], ['c2'], ['c1', 'c2', 'c3']];
		for (const f1 of DF) for (const f2 of DF) { if (!turn()) continue; for (const cs of CS) {
			const b = BODY.plan(); b.tasks[0].derivedFrom = f1; b.tasks[1].derivedFrom = f2; const all = new Set([...f1, ...f2]);
			expect(fin('plan', resp('plan', b, cs.map(id => ({ id, kind: 'doc', ref: 'r' }))), { ctx: { f1, f2, cs } }), f1.length > 0 && f2.length > 0 && [...all].every(c => cs.includes(c)) && cs.every(c => all.has(c)), null, `tasks derived from ${canon([f1, f2])}, citations ${canon(cs)}`, { f1, f2, cs });
		} }
		if (turn()) for (const ids of product(['t1', 't2', 'T1', 'x1', 't', '1', 't1a', ''], ['t1', 't2', 't12'])) { const b = BODY.plan(); b.tasks.forEach((t: any, i: number) => { t.id = ids[i]; t.dependsOn = []; }); b.testStrategyCoverage = [{ lldStrategyItem: 'subject one', coveredByTaskIds: [ids[1]] }]; expect(fin('plan', resp('plan', b), { ctx: { ids } }), ids[0] !== ids[1] && ids.every(i => /^t\d+$/.test(i)), 'schema', `tasks named ${canon(ids)}`, { ids }); }
		const COV = ['A', 'B', 'C'], BY = [...subsets(['t1', 't2', 't9'])];
		for (const subj of [[['A'], ['B']], [['A', 'B']], [[], ['A']], []]) for (const n1 of [0, 1]) for (const n2 of [0, 1]) { if (!turn()) continue; for (const rows of [[], ...COV.flatMap(i => BY.map(y => [[i, y]])), ...(BY.flatMap(y => BY.map(z => [['A', y], ['B', z]])))] as [string, string[]][][]) {
			const b = BODY.plan(), T = ['unit']; b.tasks.forEach((t: any) => { t.tests = (t.id === 't1' ? n1 : n2) ? T.map(l => ({ level: l, name: 'n' })) : []; }); b.testStrategyCoverage = rows.map(([i, y]) => ({ lldStrategyItem: i, coveredByTaskIds: y }));
			const need = subj.flat(), ok = n1 === 1 && n2 === 1 && rows.every(r => r[1].length > 0 && !r[1].includes('t9')) && need.every(s => rows.some(r => r[0] === s));
			expect(fin('plan', resp('plan', b), { files: { ...BASE(), [LLDJ]: lld({ testStrategy: { ...BODY['design.story']().testStrategy, testLevels: subj.map(s => ({ level: 'unit', purpose: 'p', subjects: s })) } }) }, ctx: { subj, rows, n1, n2 } }), ok, 'schema', `a test strategy for ${canon(subj)} covered by ${canon(rows)}, tests on t1 ${n1}, t2 ${n2}`, { subj, rows });
		} }
		if (turn()) for (const level of ['unit', 'integration', 'live', 'smoke', 'contract', 'Unit', '']) { const b = BODY.plan(); b.tasks[1].tests.push({ level, name: 'n' }); expect(fin('plan', resp('plan', b), { ctx: { level } }), ['unit', 'integration', 'live', 'smoke'].includes(level), 'schema', `a test of level "${level}"`, { level }); }

		// 11. brainstorm: no direction that was ruled out is lost
		const RO = [...subsets(['a', 'b', 'c'])];
		for (const r1 of RO) { if (!turn()) continue; for (const r2 of RO) for (const ng of RO) { const b = BODY.brainstorm(); b.decisions[0].ruledOut = r1; b.decisions[1].ruledOut = r2; b.nonGoals = ng; expect(fin('brainstorm', resp('brainstorm', b), { files: {}, ctx: { r1, r2, ng } }), [...r1, ...r2].every(x => ng.includes(x)), 'schema', `ruled out ${canon([r1, r2])}, non-goals ${canon(ng)}`, { r1, r2, ng }); } }

		// 12. define, extending an existing epic
		const NS = { title: 'New title', userValue: 'new value', acceptanceCriteria: [{ given: 'ng1', when: 'nw1', then: 'nt1' }, { given: 'ng2', when: 'nw2', then: 'nt2' }] };
		const S1 = { decision: 'extend', scope: 'M', notify: 'Extends it', evidence: [{ kind: 'doc', ref: 'docs/x.md', quote: 'q x' }, { kind: 'code', ref: 'src/y.ts' }, { kind: 'weird', ref: 'b1' }, { kind: 'doc' }, null, 7], target: { epicHash: EPIC, epicSlug: 'from-s1' }, newStory: NS, analyzeBundles: [{ id: 'bx' }] };
		const EXT: [string, (s: any) => any, boolean][] = [
			['complete', s => s, true], ['no scope', s => ({ ...s, scope: undefined }), true], ['no notice', s => ({ ...s, notify: '' }), true], ['no evidence', s => ({ ...s, evidence: undefined }), true], ['empty evidence', s => ({ ...s, evidence: [] }), true], ['no bundles', s => ({ ...s, analyzeBundles: undefined }), true], ['criterion without a then', s => ({ ...s, newStory: { ...NS, acceptanceCriteria: [{ given: 'g', when: 'w' }] } }), true],
			['no target', s => ({ ...s, target: undefined }), false], ['no hash', s => ({ ...s, target: { epicSlug: 'slug-of-epic' } }), false], ['short hash', s => ({ ...s, target: { epicHash: EPIC.slice(1) } }), false], ['upper hash', s => ({ ...s, target: { epicHash: EPIC.toUpperCase() } }), false], ['path', s => ({ ...s, target: { epicHash: '../../../../x' } }), false], ['unknown epic', s => ({ ...s, target: { epicHash: OTHER } }), false],
			['no story', s => ({ ...s, newStory: undefined }), false], ['no title', s => ({ ...s, newStory: { ...NS, title: undefined } }), false], ['no value', s => ({ ...s, newStory: { ...NS, userValue: 3 } }), false], ['no criteria', s => ({ ...s, newStory: { ...NS, acceptanceCriteria: [] } }), false], ['criteria of another type', s => ({ ...s, newStory: { ...NS, acceptanceCriteria: 'x' } }), false],
		];
		const EST: [string, string[]][] = [['three stories', ['s1', 's2', 's3']], ['a gap', ['s1', 's10', 's3']], ['odd names', ['s1', 'intro', 's2b']], ['one', ['s1']]];
		for (const [name, mk, good] of EXT) for (const [en, ids] of EST) for (const [sd, fd] of STATES) for (const [sh, fh] of STATES) {
			if (name !== 'complete' && (en !== 'three stories' || (sd !== 'approved' && sh !== 'approved'))) continue;
			for (const have of HAVE) for (const au of [null, ['sb1', 'missed'], ['sb3', 'ambiguous'], ['x1', 'missed'], ['sb2', 'passed']] as ([string, string] | null)[]) {
				if ((au !== null) && (have[0] !== 'none' || en !== 'three stories')) continue;
				if (!turn()) continue;
				const d = def({ stories: ids.map(id => ({ ...clone(STORIES[0]), id })) }), t = fd(d), h = fh(hld()), files: Record<string, string> = { 'src/keep.ts': 'x', ...Object.fromEntries(have[1]) }; if (t) files[DEFJ] = t; if (h) files[HLDJ] = h;
				const audited = au !== null && ['sb1', 'sb2', 'sb3'].includes(au[0]) && au[1] !== 'passed', ok = good && sd === 'approved' && sh === 'approved' && !audited, s1 = mk(clone(S1)), ctx = { extend: name, epic: en, define: sd, hld: sh, existing: have[0], audit: au };
				rmSync(cacheFile(EPIC), { force: true });
				const x = fin('define', { acknowledged: true }, { files, steps: { s1, ...(au ? { s4: { results: [{ itemId: au[0], verdict: au[1], evidence: 'ev' }] } } : {}) }, ctx });
				expect(x, ok, !audited ? 'schema' : good && sd === 'approved' && sh === 'approved' ? 'boundary' : null, `extending: ${name}, ${en}, epic ${sd}, HLD ${sh}, audit ${canon(au)}`, ctx);
				if (!x.r.ok) { if (existsSync(cacheFile(EPIC))) chk.violation('refused, yet changed', `a refused extension left its analysis behind`, ctx); if (audited && good && (x.r.failure.retryable !== false || x.r.failure.findings?.[0]?.itemId !== au![0])) chk.violation('findings', `the audit's ${au![0]} is reported as ${canon(x.r.failure)}`, ctx); continue; }
				const nid = `s${Math.max(0, ...ids.map(i => /^s\d+$/.test(i) ? Number(i.slice(1)) : 0)) + 1}`, st = { id: nid, title: NS.title, userValue: NS.userValue, acceptanceCriteria: s1.newStory.acceptanceCriteria.map((a: any, i: number) => ({ id: `ac${i + 1}`, given: a.given ?? '', when: a.when ?? '', then: a.then ?? '', operationalizes: [] })) };
				const want = JSON.parse(d); want.body.stories.push(st);
				if (canon(JSON.parse(x.after[DEFJ]!)) !== canon(want)) chk.violation('extended epic', `the epic is not the old one plus the story`, { ...ctx, got: JSON.parse(x.after[DEFJ]!).body.stories });
				const aid = `AMD-${EPIC}-${have[2]}`, af = `${AD}/${aid}.json`, mds = Object.keys(x.after).filter(f => !(f in files) && f !== af);
				if (mds.length !== 1 || !/^docs\/defines\/.*\.md$/.test(mds[0]!) || !x.after[mds[0]!]!.includes(NS.title)) chk.violation('extended document', `extending writes ${canon(mds)}`, ctx);
				if (Object.keys(files).some(f => f !== DEFJ && x.after[f] !== files[f])) chk.violation('side effect', `extending changed another file`, ctx);
				if (!(af in x.after)) { chk.violation('amendment', `no amendment for the new story`, ctx); continue; }
				const a = JSON.parse(x.after[af]!), z = x.r.finalized, b = z.artifact.body, m = z.artifact.meta;
				if (a.id !== aid || a.status !== 'pending' || a.amendment.type !== 'storyBoundary.addStory' || a.amendment.storyId !== nid || a.hldBaseRunId !== 'run-hld' || a.epicHash !== EPIC || a.proposedBy.runId !== run) chk.violation('amendment', `the amendment for ${nid} is ${canon(a)}`, ctx);
				if (m.epicHash !== EPIC || m.storyId !== nid || m.epicSlug !== 'slug-of-epic' || b.amendmentId !== aid || canon(b.addedStory) !== canon(st) || b.scope !== (s1.scope ?? 'S') || (s1.notify ? b.notify !== s1.notify : !b.notify) || !b.nextAction.command.includes(EPIC) || !b.nextAction.command.includes(nid)) chk.violation('extension', `the extension records ${canon({ m, b })}`, ctx);
				const ev = (s1.evidence ?? []).filter((e: any) => e?.ref).map((e: any) => e.ref);
				if (canon(z.artifact.citations.map((c: any) => c.ref)) !== canon(ev) || canon(z.artifact.citations.map((c: any) => c.id)) !== canon(ev.map((_: any, i: number) => `c${i + 1}`)) || canon(b.evidence.map((e: any) => e.ref)) !== canon(ev)) chk.violation('evidence', `evidence ${canon(ev)} recorded as ${canon(z.artifact.citations)}`, ctx);
				for (const tok of [NS.title, NS.userValue, nid, aid, `EXT-${EPIC}-${nid}`, ...ev, ...st.acceptanceCriteria.flatMap((c: any) => [c.given, c.when, c.then])]) if (!z.renderedMd.includes(tok)) chk.violation('not shown', `"${tok}" is not in the extension's document`, ctx);
				if ((s1.analyzeBundles !== undefined) !== existsSync(cacheFile(EPIC))) chk.violation('analysis kept', `analysis ${s1.analyzeBundles ? 'lost' : 'invented'}`, ctx);
			}
		}

		// 13. the coarse tracker stages: reported references land on the epic, and only there
		const TR: Record<string, any> = { 'tracker.push': { epicRef: 'me/app#1', storyRefs: { s1: 'me/app#2', s2: 'me/app#3' }, labelsCreated: ['l'], milestoneRef: '7', taskRefs: { s1: { t1: 'me/app#9' } } }, 'tracker.sync': { epicStatus: 'open', storyStatus: { s1: 'closed' }, syncedAt: T0 }, 'tracker.post': { targetKind: 'story', targetIssue: 'me/app#2', commentId: '55' } };
		const CTX1 = { gh: { owner: 'me', repo: 'app' }, epicHash: EPIC, epicSlug: 'slug-of-epic' };
		for (const wf of Object.keys(TR)) {
			for (const [name, steps, mut, ok] of [
				['complete', { s1: CTX1 }, (r: any) => r, true], ['no context', {}, (r: any) => r, false], ['no target', { s1: { ...CTX1, gh: {} } }, (r: any) => r, false], ['no epic', { s1: { gh: CTX1.gh } }, (r: any) => r, false],
				['failed checklist', { s1: CTX1 }, (r: any) => ({ ...r, checklist: { items: [{ itemId: 'i1', verdict: 'failed' }], failedCount: 1 } }), false], ['no checklist', { s1: CTX1 }, (r: any) => ({ refs: r.refs }), false], ['no refs', { s1: CTX1 }, (r: any) => ({ checklist: r.checklist }), false], ['text', { s1: CTX1 }, (r: any) => ({ ...r, refs: 'x' }), false], ['notes', { s1: CTX1 }, (r: any) => ({ ...r, notes: 'a note' }), true],
				['refs of another stage', { s1: CTX1 }, (r: any) => ({ ...r, refs: TR[wf === 'tracker.push' ? 'tracker.sync' : wf === 'tracker.sync' ? 'tracker.post' : 'tracker.push'] }), false], ['unknown epic', { s1: { ...CTX1, epicHash: OTHER } }, (r: any) => r, wf === 'tracker.post'],
				...Object.keys(TR[wf]).filter(k => !['milestoneRef', 'taskRefs'].includes(k)).map(k => [`without ${k}`, { s1: CTX1 }, (r: any) => { const c = clone(r); delete c.refs[k]; return c; }, false]),
			] as [string, any, (r: any) => any, boolean][]) for (const tr of [undefined, { epicRef: 'old#1', keep: 'k', storyRefs: { s9: 'z' } }]) {
				if (!turn()) continue;
				const files = { ...BASE(), [DEFJ]: def({}, tr ? { tracker: tr } : {}), [`${AD}/PLAN-${EPIC}-s1.json`]: J({ meta: meta('plan', 'run-plan', { storyId: 's1', lldRunId: 'run-lld', lldEffectiveHash: 'e' }), body: BODY.plan(), citations: CITS }) }, ctx = { workflow: wf, case: name, tracker: tr };
				const x = fin(wf, mut({ refs: clone(TR[wf]), checklist: { items: [{ itemId: 'i1', verdict: 'passed' }], failedCount: 0 } }), { files, steps, it: { ...intent(wf), params: { epicHash: EPIC } }, ctx });
				expect(x, ok, 'schema', `${wf}: ${name}`, ctx); if (!x.r.ok) continue;
				const got = JSON.parse(x.after[DEFJ]!), old = JSON.parse(files[DEFJ]!);
				const g = clone(got), o = clone(old); delete g.meta.tracker; delete o.meta.tracker;
				if (canon(g) !== canon(o)) chk.violation('tracker', `the epic changed beyond its tracker references`, ctx);
				const t = got.meta.tracker ?? {};
				if (wf === 'tracker.push' ? t.epicRef !== 'me/app#1' || canon(t.storyRefs) !== canon(TR[wf].storyRefs) || t.milestoneRef !== '7' || t.keep !== tr?.keep || Number.isNaN(Date.parse(t.pushedAt)) : wf === 'tracker.sync' ? t.epicStatus !== 'open' || canon(t.storyStatus) !== canon({ s1: 'closed' }) || t.lastSyncedAt !== T0 || t.epicRef !== tr?.epicRef || t.keep !== tr?.keep : canon(t) !== canon(tr ?? {})) chk.violation('tracker', `the epic's tracker references are ${canon(t)}`, ctx);
				if (wf === 'tracker.push' && canon(JSON.parse(x.after[`${AD}/PLAN-${EPIC}-s1.json`]!).meta.tracker?.taskRefs) !== canon({ t1: 'me/app#9' })) chk.violation('tracker', `the tasks' issues are not recorded`, ctx);
				if (wf !== 'tracker.push') for (const f of Object.keys({ ...files, ...x.after })) if (f !== DEFJ && x.after[f] !== files[f]) chk.violation('side effect', `${wf} changed ${f}`, ctx);
				const md = x.r.finalized.renderedMd; for (const [, v] of leaves(TR[wf])) if (typeof v === 'string' && v !== 'l' && !md.includes(v)) chk.violation('not shown', `"${v}" is not in the report`, ctx);
				if (name === 'notes' && !md.includes('a note')) chk.violation('not shown', `the note is not in the report`, ctx);
			}
		}

		// 14. the plan the model is asked for names the stage's steps in order
		if (turn()) for (const [wf, n] of [['stub', 3], ['brainstorm', 1], ['define', 4], ['design.epic', 6], ['design.story', 8], ['plan', 6], ['tracker.push', 3], ['tracker.sync', 3], ['tracker.post', 3]] as const) {
			const d = O.prepareDecompose(intent(wf as any)), s = d.schema.properties.steps; chk.evaluations++;
			if (d.schema.properties.workflow.const !== wf || s.minItems !== n || s.maxItems !== n || s.items.properties.runner.enum.length !== n) chk.violation('decompose', `the plan for "${wf}": ${canon(d.schema.properties.workflow)} ${s.minItems}..${s.maxItems}`, { wf });
			if (!d.userTurn.includes('Speed up cached')) chk.violation('decompose', `the request lacks the focus`, { wf });
			for (const bad of [undefined, '', 'x']) if (wf.startsWith('design') || wf === 'plan') { let threw = false; try { O.prepareDecompose({ ...intent(wf as any), params: { epicHash: bad, storyId: 's1' } }); } catch { threw = true; } if (!threw) chk.violation('decompose', `"${wf}" is planned for the epic ${JSON.stringify(bad)}`, { wf }); }
		}
		rmSync(cacheFile(EPIC), { force: true });
	});
	chk.assumptions.push('interface sketches and signatures are judged on clear cases only (the code documents a heuristic)', 'fields the deep guards do not cover may be absent or odd as long as an answer comes and nothing is written');
	chk.finish();
});
