// C29: a stage starts only when every open question of its upstream has an answer of its own; an answer settles exactly one question.
import { Check, main, THOROUGH, canon, repo, SCRATCH, sequences, product } from '../lib/mc.mts';
import { withFault } from '../lib/fsfault.mts';
import { World, EPIC, OTHER, AD, defBody, hldBody } from '../lib/wf.mts';
import { readFileSync, existsSync } from 'node:fs';
import { join } from 'node:path';

(globalThis as any).__mcExecFileSync = () => { throw new Error('no git here'); };
(globalThis as any).__mcSpawnSync = () => ({ status: 1, stdout: '', stderr: '', error: new Error('no git here') });
const T0 = '2026-01-02T03:04:05.000Z', J = (x: unknown): string => JSON.stringify(x, null, 2) + '\n';
const TEXTS = ['Which store?', '[c1 / missed] is it kept?', '[c1 / partial] is it fast?', '  [c1/missed] third', ' Which store? ', '[sc2 / missed] Which store?', '[__proto__ / x] odd', '[constructor / x] odder', 'Who | owns `it`?\nsecond line'];
type Kind = 'define' | 'hld' | 'lld';
type Art = { kind: Kind; epic: string; story?: string };
type Ans = { status: 'resolved' | 'ignored' | 'deferred'; choice?: string; rationale?: string };
const ARTS: Art[] = [{ kind: 'define', epic: EPIC }, { kind: 'hld', epic: EPIC }, { kind: 'lld', epic: EPIC, story: 's1' }, { kind: 'lld', epic: EPIC, story: 's10' }, { kind: 'define', epic: OTHER }, { kind: 'lld', epic: OTHER, story: 's1' }];
const WF: Record<Kind, string> = { define: 'design.epic', hld: 'design.story', lld: 'plan' };
const base = (a: Art): string => a.kind === 'define' ? `DEF-${a.epic}` : a.kind === 'hld' ? `HLD-${a.epic}` : `LLD-${a.epic}-${a.story}`;
const params = (a: Art): any => ({ epicHash: a.epic, ...(a.kind === 'lld' ? { storyId: a.story } : a.kind === 'hld' ? { storyId: 's1' } : {}) });
const hld = (): any => { const h = hldBody(); return { ...h, rolloutOverview: { ...h.rolloutOverview, orderingRationale: 'o', riskyBits: [] }, sharedContracts: h.sharedContracts.map((c: any) => ({ ...c })) }; };
const lld = (): any => ({ hldContextSlice: { frameworkSummary: 'F', rolloutPhase: 'p1', ownedContracts: [], consumedContracts: [] }, contractDetails: { surfaceLevel: 'internal', api: [] }, dataModelChanges: [], interactionWithShared: [], errorPaths: { errorCases: [], edgeCases: [], invariantsToPreserve: [] }, testStrategy: { testLevels: [], acceptanceMapping: [], testFramework: 'node' }, alternativesConsidered: [], chosenAlternative: 'a1', openQuestions: [] });
function art(a: Art, qs: readonly string[]): any {
	const body = { ...(a.kind === 'define' ? defBody(['s1', 's10']) : a.kind === 'hld' ? hld() : lld()), openQuestions: [...qs] };
	return { meta: { workflow: a.kind === 'define' ? 'define' : a.kind === 'hld' ? 'design.epic' : 'design.story', runId: 'r-' + base(a), schemaVersion: 1, createdAt: T0, elapsedMs: 1, model: 'm', approvedAt: T0, epicHash: a.epic, epicSlug: 'slug-' + a.epic.slice(-2), ...(a.story ? { storyId: a.story, hldBaseRunId: 'r', hldEffectiveHash: 'h'.repeat(64), hldAmendmentsApplied: [] } : {}), tag: 'kept' }, body, citations: [{ id: 'c1', kind: 'file', ref: 'src/a.ts' }] };
}
/** the questions of an artifact: different texts are different questions, the same text is one question */
const same = (t: string): string => t.trim();

main(async () => {
	const chk = new Check('C29', 'exploration');
	chk.rule = 'a case is non-trivial when a start was refused, an answer was recorded or an invalid request was turned down';
	await chk.sharded(async mine => {
		const H = await repo('src/mcp/workflow-step/handler.ts'), Q = await repo('src/workflow/questions.ts');
		const w = new World(join(SCRATCH, 'w'));
		let job = 0; const turn = (): boolean => mine(job++);
		let failAt = -1, calls = 0, gate: null | (() => Promise<void>) = null;
		const provider: any = { completeStructured: async (msgs: any[]) => { calls++; if (calls - 1 === failAt) throw new Error('provider down'); if (gate) await gate(); return { options: [{ label: 'A', detail: msgs.map(m => m.content).join('\n') }, { label: 'B', detail: 'b' }], recommendation: 'A' }; } };
		Q._setQuestionProviderForTests(provider);
		const call = async (x: any): Promise<any> => { chk.evaluations++; const r = await H.handleWorkflowStep(x); const o = JSON.parse(r.content[0].text); if ((o.next === 'error') !== (r.isError === true)) chk.violation('frame', `an answer "${o.next}" with isError ${r.isError}`, { call: x }); return o; };
		const start = (a: Art): Promise<any> => call({ phase: 'start', workflow: WF[a.kind], focus: 'f', repo: w.root, params: params(a) });
		const put = (all: [Art, readonly string[]][]): void => w.set(Object.fromEntries(all.flatMap(([a, q]) => [[`${AD}/${base(a)}.json`, J(art(a, q))]])));
		const load = (a: Art): any => JSON.parse(readFileSync(join(w.root, AD, base(a) + '.json'), 'utf8'));

		/** one start against the model: the open questions, in order, each with options made for it */
		const checkStart = (r: any, qs: readonly string[], open: (t: string) => boolean, ctx: any): void => {
			const want = qs.filter(open);
			if (want.length === 0) { if (r.next === 'resolve_questions') chk.violation('gate held', `every question has an answer and the stage still does not start: ${canon(r.questions)}`, ctx); return; }
			chk.nontrivial++;
			if (r.next !== 'resolve_questions') { chk.violation('gate', `open questions ${canon(want)}, yet the stage answers "${r.next}" ${canon(r.error ?? null)}`, ctx); return; }
			const got = r.questions.map((q: any) => q.text);
			// identical questions may be listed once or as often as they occur
			const uniq = (l: string[]): string[] => [...new Set(l.map(same))];
			if (canon(uniq(got)) !== canon(uniq(want)) || got.length > want.length) chk.violation('asked', `asks ${canon(got)}, expected ${canon(want)}`, ctx);
			for (const q of r.questions) {
				if (typeof q.questionId !== 'string' || q.questionId === '') chk.violation('id', `question without an id: ${canon(q)}`, ctx);
				if (!q.options?.[0]?.detail?.includes(q.text) || q.options.length !== 2 || q.recommendation !== 'A') chk.violation('options', `question "${q.text}" carries options not made for it: ${canon(q.options)}`, ctx);
			}
			const byId = new Map<string, string>();
			for (const q of r.questions) { const k = byId.get(q.questionId); if (k !== undefined && k !== same(q.text)) chk.violation('same id', `two questions share the id ${q.questionId}: "${k}" and "${q.text}"`, ctx); byId.set(q.questionId, same(q.text)); }
		};
		/** the artifact on disk is the original plus exactly these resolutions */
		const checkDisk = (a: Art, qs: readonly string[], ans: Map<string, Ans>, ids: Map<string, string>, ctx: any): void => {
			const j = load(a), o = art(a, qs), res = j.meta.questionResolutions ?? {};
			const rest = { ...j, meta: { ...j.meta } }; delete rest.meta.questionResolutions;
			if (canon(rest) !== canon(o)) chk.violation('artifact', `recording an answer changed the artifact beyond its answers`, { ...ctx, got: rest });
			const want = Object.fromEntries([...ans].map(([t, x]) => [ids.get(t)!, { text: t, status: x.status, choice: x.status === 'resolved' ? x.choice ?? null : null, rationale: x.rationale ?? null }]));
			const got = Object.fromEntries(Object.entries(res).map(([i, r]: any) => [i, { text: same(r.question), status: r.status, choice: r.choice ?? null, rationale: r.rationale || null }]));
			if (canon(got) !== canon(want)) chk.violation('recorded', `recorded ${canon(got)}, expected ${canon(want)}`, ctx);
			for (const r of Object.values(res) as any[]) if (Number.isNaN(Date.parse(r.resolvedAt))) chk.violation('stamp', `an answer without a time: ${canon(r)}`, ctx);
		};
		const mdOf = (a: Art): string => { const dir = { define: 'defines', hld: 'designs', lld: 'designs' }[a.kind]; void dir; const all = w.snap(); const hits = Object.entries(all).filter(([f, t]) => f.endsWith('.md') && t.includes(base(a) + ' ')); return hits.length === 1 ? hits[0]![1] : `(${hits.length} files)`; };

		const STAT: Ans[] = [{ status: 'resolved', choice: 'Use A' }, { status: 'ignored', rationale: 'because' }, { status: 'deferred' }, { status: 'resolved', choice: 'Use B', rationale: 'better' }];
		const resolve = (a: Art, id: string, s: Ans, extra: any = {}): Promise<any> => call({ phase: 'resolve_question', workflow: WF[a.kind], repo: w.root, params: params(a), questionId: id, ...(s.status === 'deferred' ? { defer: true } : s.status === 'ignored' ? { ignore: true } : {}), ...(s.choice !== undefined ? { choice: s.choice } : {}), ...(s.rationale !== undefined ? { rationale: s.rationale } : {}), ...extra });

		// 1. every list of questions on one artifact, answered in every order with every kind of answer
		const LEN = THOROUGH ? 4 : 3;
		let n = 0;
		for (let len = 1; len <= LEN; len++) for (const seq of sequences(TEXTS.length, len)) {
			n++;
			const kinds = len <= 2 || THOROUGH ? [0, 1, 2] : [n % 3];
			for (const k of kinds) {
				if (!turn()) continue;
				const a = ARTS[k]!, qs = seq.map(i => TEXTS[i]!), uq = [...new Set(qs.map(same))];
				put([[a, qs]]);
				const s0 = await start(a), ctx0 = { artifact: base(a), questions: qs };
				checkStart(s0, qs, () => true, ctx0);
				const ids = new Map<string, string>(); for (const q of s0.questions ?? []) ids.set(same(q.text), q.questionId);
				if (canon([...ids.keys()].sort()) !== canon([...uq].sort())) { chk.violation('asked', `questions ${canon(qs)} offered as ${canon([...ids])}`, ctx0); continue; }
				const perms: number[][] = uq.length === 1 ? [[0]] : uq.length === 2 ? [[0, 1], [1, 0]] : [uq.map((_, i) => i), uq.map((_, i) => uq.length - 1 - i)];
				for (const perm of perms) for (const st of product(...uq.map(() => uq.length <= 2 ? [0, 1, 2, 3] : [0, 1, 2]))) {
					if (uq.length >= 3 && !THOROUGH && (st[0]! * 9 + st[1]! * 3 + st[2]! + n) % 3 !== 0) continue;
					put([[a, qs]]); w.snap(); put([[a, qs]]);
					const ans = new Map<string, Ans>(), hist: any[] = [];
					for (const p of perm) {
						const t = uq[p]!, s = STAT[st[p]!]!, ctx = { ...ctx0, answers: hist };
						hist.push([t, s.status]);
						const r = await resolve(a, ids.get(t)!, s); ans.set(t, s);
						const left = qs.filter(x => !ans.has(same(x)));
						if (left.length) checkStart(r, qs, x => !ans.has(same(x)), ctx); else if (r.next !== 'ready') chk.violation('ready', `all questions answered, the answer is "${r.next}" ${canon(r.error ?? null)}`, ctx);
						chk.nontrivial++;
						checkDisk(a, qs, ans, ids, ctx);
					}
					const s1 = await start(a); checkStart(s1, qs, () => false, { ...ctx0, answers: hist });
					if (s1.next === 'error' && !/approv|exist|found|missing|stale/i.test(canon(s1.error))) chk.violation('start', `after all answers the start fails: ${canon(s1.error)}`, ctx0);
					// the deferred ones, and only they, come up for review, each with a call that answers it
					const rv = await call({ phase: 'review_deferred', repo: w.root, params: { epicHash: a.epic } });
					const wantD = uq.filter(t => ans.get(t)!.status === 'deferred').sort();
					if (rv.next !== 'deferred' || canon([...new Set(rv.questions.map((q: any) => same(q.text)))].sort()) !== canon(wantD)) { chk.violation('deferred', `deferred questions ${canon(rv.questions ?? rv)}, expected ${canon(wantD)}`, { ...ctx0, answers: hist }); continue; }
					for (const q of rv.questions) if (q.questionId !== ids.get(same(q.text))) chk.violation('unstable id', `"${q.text}" was ${ids.get(same(q.text))}, is now ${q.questionId}`, { ...ctx0, answers: hist });
					const md = mdOf(a);
					for (const [t, s] of ans) if (!md.includes(t.split('\n')[0]!) || (s.choice !== undefined && !md.includes(s.choice)) || (s.rationale && !md.includes(s.rationale))) chk.violation('rendered', `the document does not show the answer to "${t}": ${md.slice(0, 400)}`, { ...ctx0, answers: hist });
					// answering again replaces the answer
					const t = uq[0]!, again: Ans = STAT[(st[0]! + 1) % 4]!;
					const q0 = rv.questions.find((q: any) => same(q.text) === t);
					const rw = q0?.resolveWith ? { workflow: q0.resolveWith.workflow, params: q0.resolveWith.params } : {};
					const r2 = await resolve(a, ids.get(t)!, again, rw); ans.set(t, again);
					if (r2.next !== 'ready') chk.violation('answer again', `answering "${t}" again: "${r2.next}" ${canon(r2.error ?? null)}`, { ...ctx0, answers: hist });
					checkDisk(a, qs, ans, ids, { ...ctx0, answers: [...hist, ['again', again.status]] });
				}
			}
		}

		// 2. several artifacts, stories and epics: histories of valid and invalid requests
		const FULL: [Art, string[]][] = ARTS.map((a, i) => [a, [`[k / x] common`, `own ${i}`]]);
		type Op = { name: string; i?: number; q?: number; s?: Ans; raw?: any };
		const ops: Op[] = [];
		for (let i = 0; i < ARTS.length; i++) { ops.push({ name: `answer ${i}.0`, i, q: 0, s: STAT[i % 3 === 1 ? 2 : 0] }); ops.push({ name: `answer ${i}.1`, i, q: 1, s: STAT[i % 3 === 0 ? 2 : i % 3] }); }
		const A0 = ARTS[0]!;
		const BAD: [string, any][] = [
			['unknown id', { workflow: 'design.epic', params: { epicHash: EPIC }, questionId: 'nope', choice: 'x' }],
			['id of another artifact', { workflow: 'design.epic', params: { epicHash: EPIC }, questionId: '%other', choice: 'x' }],
			['no id', { workflow: 'design.epic', params: { epicHash: EPIC }, choice: 'x' }], ['empty id', { workflow: 'design.epic', params: { epicHash: EPIC }, questionId: '', choice: 'x' }],
			['no choice', { workflow: 'design.epic', params: { epicHash: EPIC }, questionId: 'k' }], ['empty choice', { workflow: 'design.epic', params: { epicHash: EPIC }, questionId: 'k', choice: '' }],
			['no gate', { workflow: 'define', params: { epicHash: EPIC }, questionId: 'k', choice: 'x' }], ['build', { workflow: 'build', params: { epicHash: EPIC, storyId: 's1' }, questionId: 'k', choice: 'x' }],
			['bad epic', { workflow: 'design.epic', params: { epicHash: 'zz' }, questionId: 'k', choice: 'x' }], ['path epic', { workflow: 'design.epic', params: { epicHash: '../../etc/passwd0' }, questionId: 'k', choice: 'x' }], ['no epic', { workflow: 'plan', params: { storyId: 's1' }, questionId: 'k', choice: 'x' }],
			['no story', { workflow: 'plan', params: { epicHash: EPIC }, questionId: 'k', choice: 'x' }], ['empty story', { workflow: 'plan', params: { epicHash: EPIC, storyId: '' }, questionId: 'k', choice: 'x' }], ['unknown story', { workflow: 'plan', params: { epicHash: EPIC, storyId: 's2' }, questionId: 'k', choice: 'x' }],
			['absent artifact', { workflow: 'design.story', params: { epicHash: OTHER, storyId: 's1' }, questionId: 'k', choice: 'x' }], ['no params', { workflow: 'design.epic', questionId: 'k', choice: 'x' }],
		];
		const allStarts = async (ans: Map<string, Ans>[], ctx: any): Promise<void> => {
			for (const [i, a] of ARTS.entries()) checkStart(await start(a), FULL[i]![1], t => !ans[i]!.has(same(t)), { ...ctx, start: base(a) });
			for (const epic of [EPIC, OTHER]) {
				const rv = await call({ phase: 'review_deferred', repo: w.root, params: epic === EPIC ? { epicHash: epic } : { epicSlug: 'slug-' + OTHER.slice(-2) } });
				const want = ARTS.flatMap((a, i) => a.epic !== epic ? [] : FULL[i]![1].filter(t => ans[i]!.get(same(t))?.status === 'deferred').map(t => [a.kind, a.story ?? null, t]));
				if (rv.next !== 'deferred' || canon(rv.questions.map((q: any) => canon([q.kind, q.storyId ?? null, q.text])).sort()) !== canon(want.map(x => canon(x)).sort())) chk.violation('deferred of epic', `epic ${epic}: ${canon(rv.questions ?? rv)}, expected ${canon(want)}`, ctx);
				for (const q of rv.questions ?? []) { const a = ARTS.find(x => x.epic === epic && x.kind === q.kind && (x.story ?? null) === (q.storyId ?? null))!; if (q.resolveWith?.workflow !== WF[a.kind] || q.resolveWith.params.epicHash !== epic || (a.story && q.resolveWith.params.storyId !== a.story)) chk.violation('resolveWith', `the call offered for "${q.text}" of ${base(a)} is ${canon(q.resolveWith)}`, ctx); }
			}
		};
		const DEPTH = THOROUGH ? 4 : 3;
		for (let len = 0; len <= DEPTH; len++) for (const seq of sequences(ops.length, len)) {
			if (new Set(seq).size !== seq.length) continue; // re-answers are covered above
			if (len === 3 && !THOROUGH && (seq[0]! + seq[1]! * 5 + seq[2]! * 7) % 4 !== 0) continue;
			if (!turn()) continue;
			put(FULL); w.snap(); put(FULL);
			const ids = [] as Map<string, string>[];
			for (const a of ARTS) ids.push(new Map((await start(a)).questions.map((q: any) => [same(q.text), q.questionId])));
			const ans = ARTS.map(() => new Map<string, Ans>()); const names = seq.map(i => ops[i]!.name);
			for (const o of seq.map(i => ops[i]!)) {
				const before = w.snap(), t = same(FULL[o.i!]![1][o.q!]!);
				await resolve(ARTS[o.i!]!, ids[o.i!]!.get(t)!, o.s!); ans[o.i!]!.set(t, o.s!);
				const after = w.snap(); const changed = [...new Set([...Object.keys(before), ...Object.keys(after)])].filter(f => before[f] !== after[f]);
				const stray = changed.filter(f => !(f === `${AD}/${base(ARTS[o.i!]!)}.json` || (f.endsWith('.md') && after[f]?.includes(base(ARTS[o.i!]!) + ' '))));
				if (stray.length) chk.violation('stray', `answering a question of ${base(ARTS[o.i!]!)} changed ${stray}`, { history: names });
				if (!changed.length) chk.violation('lost', 'an accepted answer changed nothing on disk', { history: names });
				checkDisk(ARTS[o.i!]!, FULL[o.i!]![1], ans[o.i!]!, ids[o.i!]!, { history: names });
			}
			await allStarts(ans, { history: names });
			if (len === 1) for (const [name, b] of BAD) {
				const before = canon(w.snap()); const x = { ...b, questionId: b.questionId === '%other' ? ids[4]!.get('own 4') : b.questionId };
				const r = await call({ phase: 'resolve_question', repo: w.root, ...x }); chk.nontrivial++;
				if (r.next !== 'error' || typeof r.error?.message !== 'string') chk.violation('accepted:' + name, `an invalid answer (${name}) gives ${canon(r)}`, { history: names, request: x });
				if (canon(w.snap()) !== before) chk.violation('effect:' + name, `an invalid answer (${name}) changed something on disk`, { history: names, request: x });
			}
		}
		for (const p of [{}, { epicHash: 'zz' }, { epicSlug: 'none' }, undefined]) if (turn()) { put(FULL); const r = await call({ phase: 'review_deferred', repo: w.root, params: p }); if (r.next !== 'error') chk.violation('review bad', `a review of ${canon(p ?? null)} gives ${canon(r)}`, {}); }

		// 3. the provider fails at each call; the questions stay open and nothing is lost
		for (const a of ARTS.slice(0, 4)) for (let at = 0; at < 3; at++) for (const phase of ['start', 'resolve']) if (turn()) {
			const qs = TEXTS.slice(0, 3); put([[a, qs]]); w.snap(); put([[a, qs]]); failAt = -1; calls = 0;
			const ids: Map<string, string> = new Map((await start(a)).questions.map((q: any) => [same(q.text), q.questionId]));
			failAt = at; calls = 0; const ans = new Map<string, Ans>(), ctx = { artifact: base(a), failing_call: at, phase };
			if (phase === 'start') { const before = canon(w.snap()); const r = await start(a); if (r.next !== 'error') chk.violation('provider', `the provider failed and the start answers "${r.next}"`, ctx); if (canon(w.snap()) !== before) chk.violation('provider effect', 'a failed start changed something', ctx); }
			else { await resolve(a, ids.get(same(qs[0]!))!, STAT[0]!); if (load(a).meta.questionResolutions) ans.set(same(qs[0]!), STAT[0]!); }
			failAt = -1; chk.nontrivial++;
			checkDisk(a, qs, ans, ids, ctx); checkStart(await start(a), qs, t => !ans.has(same(t)), ctx);
		}
		// 4. overlapping answers: none is lost
		for (const a of ARTS.slice(0, 4)) for (const [x, y] of product([0, 1, 2], [0, 1, 2])) if (x !== y && turn()) for (const order of [0, 1]) {
			const qs = TEXTS.slice(0, 3); put([[a, qs]]); w.snap(); put([[a, qs]]);
			const ids: Map<string, string> = new Map((await start(a)).questions.map((q: any) => [same(q.text), q.questionId]));
			const held: (() => void)[] = []; gate = () => new Promise<void>(r => { held.push(r); });
			const ctx = { artifact: base(a), overlap: [x, y], order };
			let done = 0; const ps = [x, y].map((k, i) => resolve(a, ids.get(same(qs[k]!))!, STAT[i]!).then(r => { done++; return r; }));
			for (let i = 0; done < 2 && i < 40; i++) { await new Promise(r => setImmediate(r)); (order ? held.pop() : held.shift())?.(); }
			gate = null; while (held.length) held.shift()!(); await Promise.all(ps); chk.nontrivial++;
			checkDisk(a, qs, new Map([[same(qs[x]!), STAT[0]!], [same(qs[y]!), STAT[1]!]]), ids, ctx);
		}
		// 5. death or an I/O error at any write: the artifact is the old or the new one, and answering again completes
		for (const a of ARTS.slice(0, 4)) for (const mode of ['before', 'torn', 'error'] as const) for (let at = 0; at < 6; at++) if (turn()) {
			const qs = TEXTS.slice(0, 2); put([[a, qs]]); w.snap(); put([[a, qs]]);
			const ids: Map<string, string> = new Map((await start(a)).questions.map((q: any) => [same(q.text), q.questionId]));
			const first = await resolve(a, ids.get(same(qs[1]!))!, STAT[2]!); void first;
			const ctx = { artifact: base(a), mode, step: at };
			const r = await withFault(w.root, at, mode, () => resolve(a, ids.get(same(qs[0]!))!, STAT[0]!) as any); void r;
			chk.nontrivial++;
			let j: any; try { j = load(a); } catch { chk.violation('torn', `interrupted recording leaves an unreadable artifact`, ctx); continue; }
			const got = Object.keys(j.meta.questionResolutions ?? {}).length; if (got !== 1 && got !== 2) chk.violation('torn', `${got} answers after the interruption`, ctx);
			const r2 = await resolve(a, ids.get(same(qs[0]!))!, STAT[0]!); if (r2.next !== 'ready') chk.violation('retry', `answering again after the interruption: ${canon(r2)}`, ctx);
			checkDisk(a, qs, new Map([[same(qs[1]!), STAT[2]!], [same(qs[0]!), STAT[0]!]]), ids, ctx);
			const md = mdOf(a); if (!md.includes('Use A')) chk.violation('retry md', 'after answering again the document lacks the answer', ctx);
		}
		// 6. stages without a gate, and a missing, unreadable or question-free upstream: no questions are asked
		for (const wf of ['define', 'stub', 'design.epic', 'design.story', 'plan', 'tracker.push']) for (const state of ['absent', 'garbage', 'none', 'other-epic']) if (turn()) {
			w.set(state === 'absent' ? {} : Object.fromEntries(ARTS.filter(a => state !== 'other-epic' || a.epic === OTHER).map(a => [`${AD}/${base(a)}.json`, state === 'garbage' ? '{' : J(art(a, state === 'none' ? [] : ['own']))])));
			const r = await call({ phase: 'start', workflow: wf, focus: 'f', repo: w.root, params: { epicHash: EPIC, storyId: 's1' } });
			if (r.next === 'resolve_questions') chk.violation('needless', `${wf} with upstream ${state} asks ${canon(r.questions)}`, {});
		}
	});
	chk.assumptions.push('options come from a stub provider; git and gh are absent (their use is best effort)');
	chk.finish();
});
