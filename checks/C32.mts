// C32: a code review judges exactly the story's changes on current evidence, records all four dimensions or nothing, and gates completion by its recorded verdict.
import { Check, main, THOROUGH, canon, repo, SCRATCH, sequences, product, subsets } from '../lib/mc.mts';
import { openCtx } from '../lib/store.mts';
import { EPIC, OTHER } from '../lib/wf.mts';
import { mkdirSync, writeFileSync, readFileSync, rmSync, existsSync, utimesSync } from 'node:fs';
import { execFileSync } from 'node:child_process';
import { dirname, join } from 'node:path';

const DIM = ['adherence', 'conventions', 'coverage', 'quality'] as const;
const CF = ['src/a.ts', 'b.md'];
const F = (dimension: string, severity: any, location: any, message: any = 'm | x', x: any = {}): any => ({ dimension, severity, location, message, ...x });
const LOCS = ['src/a.ts:10', 'b.md:1', 'src/a.ts:10:5', 'src/a.ts.bak:1', 'lib/src/a.ts:3', 'other.ts:1', 'a.ts:2'];
const inScope = (loc: string, cf: readonly string[]): boolean => cf.includes(loc.split(':')[0]!);
const counts = (fs: any[]): any => ({ high: fs.filter(f => f.severity === 'HIGH').length, med: fs.filter(f => f.severity === 'MED').length, low: fs.filter(f => f.severity === 'LOW').length });
const fold = (c: any, degraded: boolean): string => c.high ? 'block' : c.med ? 'warn' : degraded ? 'warn' : 'pass';

main(async () => {
	const chk = new Check('C32', 'exploration');
	chk.rule = 'a case is non-trivial when the evidence is stale, missing or foreign, a judgement is refused or dropped, a step fails, or the verdict is not a pass';
	await chk.sharded(async mine => {
		const H = await repo('src/mcp/code-review-step/handler.ts'), RN = await repo('src/workflow/code-review/runner.ts'), G = await repo('src/workflow/code-review/gate.ts'), GR = await repo('src/workflow/code-review/grounding.ts'), FR = await repo('src/workflow/code-review/freshness.ts'), SU = await repo('src/workflow/code-review/subject.ts'), GA = await repo('src/workflow/gates.ts'), SO = await repo('src/workflow/storage.ts');
		let job = 0; const turn = (): boolean => mine(job++);
		const bad = (k: string, what: string, ctx: unknown): void => chk.violation(k, what, { case: ctx });
		const SUBJ = (cf: readonly string[] = CF): any => ({ repoPath: '/r', epicHash: EPIC, storyId: 's1', changedFiles: cf, approvedLld: null, approvedPlan: null, buildRecord: null }), CON = (): any => ({ ...SUBJ(), approvedLld: { meta: {}, body: { clause: 'theDesignClause' } }, approvedPlan: { meta: {}, body: { tasks: [{ id: 't1', tests: [{ level: 'unit', name: 'thePromisedTest' }] }] } } });
		const SYM = { entityId: '1', file: 'src/a.ts', kind: 'function', name: 'fooBarSym', signature: 'f(): void', callers: ['callerX'], callees: [], testsReaching: [] };
		const P = SO.codeReviewArtifactPaths('/r', EPIC, 's1');

		// ---- the specification of a record
		function record(key: string, ctx: any, writes: [string, string][], want: { dims: any[][]; cf: readonly string[]; degraded: boolean; model: string }): void {
			const e = (k: string, what: string): void => bad(`${key}:${k}`, `${what} (${canon(ctx).slice(0, 500)})`, ctx);
			if (canon(writes.map(w => w[0]).sort()) !== canon([P.json, P.md].sort())) { e('files', `wrote ${canon(writes.map(w => w[0]))}`); return; }
			const a = JSON.parse(writes.find(w => w[0] === P.json)![1]), md = writes.find(w => w[0] === P.md)![1], all = want.dims.flat(), c = counts(all), v = fold(c, want.degraded);
			const body = { kind: 'code-review', epicHash: EPIC, storyId: 's1', groundingMode: want.degraded ? 'degraded' : 'full', subject: { changedFiles: want.cf }, dimensions: DIM.map((d, i) => ({ dimension: d, findings: want.dims[i] })), verdict: v, counts: c };
			if (canon(a.body) !== canon(body)) e('body', `recorded ${canon(a.body)}, expected ${canon(body)}`);
			if (a.meta.workflow !== 'code-review' || a.meta.epicHash !== EPIC || a.meta.storyId !== 's1' || a.meta.repoPath !== '/r' || a.meta.model !== want.model || !(Date.parse(a.meta.createdAt) > 0)) e('meta', `metadata ${canon(a.meta)}`);
			const rows = md.split('\n').filter(l => l.startsWith('| ') && !l.startsWith('| Severity') && !l.startsWith('| ---')).map(l => l.split(/(?<!\\)\|/).slice(1, -1).map(x => x.trim().replaceAll('\\|', '|')));
			if (canon(rows) !== canon(all.map(f => [f.severity, f.location, f.message.replaceAll('\n', ' ')]))) e('table', `the document lists ${canon(rows)}`);
			if (!md.includes(v.toUpperCase()) || !md.includes(`HIGH ${c.high}`) || !md.includes(`MED ${c.med}`) || !md.includes(`LOW ${c.low}`)) e('head', 'the document does not state the verdict and the counts');
		}

		// ---- 1. the conversation: every course of indexing, evidence, diff, answers and write failures
		interface Env { subject: 'ok' | 'decline' | 'throw'; fresh: readonly string[]; ground: readonly string[]; diff: readonly string[]; timeout: number }
		const DIFFCF = ['src/d.ts', 'b.md'], DSYM = { ...SYM, entityId: 'diff:src/d.ts', file: 'src/d.ts', name: 'diffSymName' };
		function world(env: Env): any {
			let t = 1_000; const w: any = { writes: [] as [string, string][], freshCalls: [] as any[], slept: [] as number[], fi: 0, gi: 0, di: 0, wfail: 0, asked: [] as string[] };
			const at = (l: readonly string[], k: 'fi' | 'gi' | 'di'): string => l[Math.min(w[k]++, l.length - 1)]!;
			w.deps = {
				resolveSubject: async (r: string, e: string, s: string) => { await null; w.asked.push([r, e, s].join()); if (env.subject === 'throw') throw new Error('boom'); return env.subject === 'ok' ? { ok: true, subject: SUBJ() } : { ok: false, reason: 'no-build-record' }; },
				fetchFreshness: async (p: any) => { await null; if (w.freshCalls.length > 500) throw new Error('polls without end'); w.freshCalls.push(p); const a = at(env.fresh, 'fi'); if (a === 'x') throw new Error('ipc'); return a === 'f' ? { ok: true, isProcessing: false, staleFiles: [] } : a === 's' ? { ok: true, isProcessing: false, staleFiles: ['b.md'] } : a === 'p' ? { ok: true, isProcessing: true, staleFiles: [] } : { ok: false, reason: 'down' }; },
				fetchGrounding: async (p: any) => { await null; w.grounded = p; const a = at(env.ground, 'gi'); return a === 'g' ? { ok: true, grounding: { symbols: [SYM] } } : a === 'h' ? { ok: true, grounding: { symbols: [] } } : { ok: false, reason: 'down' }; },
				assembleDiffGrounding: async (r: string) => { await null; w.asked.push(`diff ${r}`); const a = at(env.diff, 'di'); if (a === 'u') throw new GR.DiffUnavailableError('no git'); return { grounding: { symbols: [DSYM] }, changedFiles: DIFFCF }; },
				runReview: RN.runCodeReview,
				write: (p: string, c: string) => { if (w.wfail > 0 && --w.wfail === 0) throw new Error('ENOSPC'); w.writes.push([p, c]); },
				sleep: async (ms: number) => { await null; w.slept.push(ms); t += ms; }, now: () => t, freshnessTimeoutMs: () => env.timeout,
			};
			w.step = async (input: any): Promise<any> => { const r = await H.handleCodeReviewStep(input, w.deps); const o = JSON.parse(r.content[0].text); if ((o.next === 'error') !== (r.isError === true)) bad('step:flag', `isError ${r.isError} on a ${o.next} answer`, input); return o; };
			return w;
		}
		const START = { phase: 'start', repo: '/r', epicHash: EPIC, storyId: 's1' };
		const full = (x: Partial<Record<string, any[]>> = {}, order: readonly string[] = DIM): any => ({ judgements: order.map(d => ({ dimension: d, findings: x[d] ?? [] })) });
		/** what an emit_judgements answer must hold */
		const checkEmit = (o: any, degraded: boolean, ctx: any): void => {
			const s = degraded ? DSYM : SYM;
			if (canon(o.grounding) !== canon({ symbols: [s] })) bad('emit:grounding', `hands over ${canon(o.grounding)} (${canon(ctx)})`, ctx);
			if (o.prompts?.length !== 4 || o.prompts.some((p: any) => !p.map((m: any) => m.content).join('\n').includes(s.name))) bad('emit:prompts', `${o.prompts?.length} prompts, or one without the evidence (${canon(ctx)})`, ctx);
		};
		const answer = async (w: any, token: string, degraded: boolean, ctx: any): Promise<void> => {
			const cf = degraded ? DIFFCF : CF, fs = DIM.map((d, i) => [F(d, ['LOW', 'MED', 'LOW', 'LOW'][i], 'src/a.ts:1'), F(d, 'LOW', 'src/d.ts:1'), F(d, 'LOW', 'b.md:2'), F(d, 'HIGH', 'other:1')]);
			const x = Object.fromEntries(DIM.map((d, i) => [d, fs[i]])), before = w.writes.length;
			if (before) bad('early-write', `files were written before any judgement (${canon(ctx)})`, ctx);
			const o = await w.step({ phase: 'judgements', judgements: full(x), state: token });
			if (o.next !== 'done') { bad('answer:refused', `complete judgements were refused: ${canon(o)} (${canon(ctx)})`, ctx); return; }
			const dims = fs.map(l => l.filter(f => inScope(f.location, cf))), c = counts(dims.flat());
			if (o.verdict !== fold(c, degraded) || canon(o.counts) !== canon(c) || o.path !== P.md || o.jsonPath !== P.json) bad('answer:reported', `reported ${canon(o)} (${canon(ctx)})`, ctx);
			record('record', ctx, w.writes, { dims, cf, degraded, model: 'client' });
			const again = await w.step({ phase: 'judgements', judgements: full(x), state: token });
			if (again.next !== 'error' || again.error.code !== 'state-not-found' || w.writes.length !== 2) bad('resend', `a resent judgement answered ${canon(again)} after ${w.writes.length} writes`, ctx);
		};
		const FSEQ: string[][] = []; for (const n of THOROUGH ? [1, 2, 3, 4, 5] : [1, 2, 3, 4]) for (const q of sequences(5, n)) { const l = q.map(i => 'fspdx'[i]!); if (l.slice(0, -1).every(c => c === 's' || c === 'p' || l.indexOf(c) > 0 && 'dx'.includes(c))) FSEQ.push(l); }
		for (const subject of ['ok', 'decline', 'throw'] as const) for (const fresh of FSEQ) for (const ground of [['g'], ['h'], ['d', 'g'], ['d', 'h']]) for (const diff of [['k'], ['u', 'k']]) for (const timeout of [0, 1500, 4000]) for (const proceed of [true, false, undefined]) {
			if (subject !== 'ok' && (fresh.length > 1 || timeout || proceed) || (fresh[0] === 'f' || 'dx'.includes(fresh[0]!)) && (fresh.length > 1 || timeout || proceed !== true) || proceed !== true && (fresh.length > 2 || timeout)) continue;
			if (!turn()) continue;
			const ctx = { subject, fresh, ground, diff, timeout, proceed }, w = world({ subject, fresh, ground, diff, timeout }); chk.evaluations++;
			const err = (o: any, code: string, retry: boolean): boolean => { if (o.next === 'error' && o.error.code === code && o.error.retryable === retry) return true; bad('answer', `answered ${canon(o).slice(0, 400)}, expected the error ${code} (${canon(ctx)})`, ctx); return false; };
			let o = await w.step(START), token = '';
			if (subject === 'decline') { err(o, 'no-subject', false); if (w.freshCalls.length) bad('decline:went-on', 'a declined subject was still examined', ctx); continue; }
			if (subject === 'throw' || fresh[0] === 'x') { err(o, 'internal', false); continue; }
			if (canon(w.asked.slice(0, 1)) !== canon([`/r,${EPIC},s1`]) || canon(w.freshCalls) !== canon([{ repo: '/r', epicHash: EPIC, storyId: 's1', changedFiles: CF }])) bad('asked', `asked about ${canon([w.asked, w.freshCalls])}`, ctx);
			if (fresh[0] === 'd') { err(o, 'freshness-unavailable', true); continue; }
			let resume: any = null;
			if (fresh[0] !== 'f') {
				chk.nontrivial++;
				if (o.next !== 'confirm_wait' || canon(o.staleFiles) !== canon(fresh[0] === 's' ? ['b.md'] : []) || o.isProcessing !== (fresh[0] === 'p') || typeof o.state !== 'string') { bad('wait', `a stale index answered ${canon(o)} (${canon(ctx)})`, ctx); continue; }
				if (w.grounded) bad('wait:grounded', 'evidence was read from a stale index', ctx);
				token = o.state; resume = { phase: 'start', state: token, ...(proceed === undefined ? {} : { proceed }) };
				const j = await w.step({ phase: 'judgements', judgements: full(), state: token }); if (j.next !== 'error' || w.writes.length) bad('wait:judged', `judgements on a waiting review answered ${canon(j)}`, ctx);
				o = await w.step(resume);
			}
			// follow the retryable errors with the same request until the review moves on
			for (let tries = 0; o.next === 'error' && tries < 4; tries++) {
				const last = fresh[Math.min(w.fi, fresh.length) - 1]!;
				if (o.error.code === 'freshness-unavailable' ? last !== 'd' : o.error.code === 'internal' ? last !== 'x' : o.error.code === 'grounding-unavailable' ? ground[Math.min(w.gi, ground.length) - 1] !== 'd' : o.error.code === 'diff-unavailable' ? diff[Math.min(w.di, diff.length) - 1] !== 'u' : true) { bad('error', `failed with ${canon(o)} (${canon(ctx)})`, ctx); break; }
				if (w.writes.length) bad('error:write', 'a failed review left files', ctx);
				if (o.error.code !== 'internal' && !o.error.retryable) bad('error:final', `${o.error.code} is reported as final`, ctx);
				const stuck = (last === 'd' || last === 'x') && w.fi >= fresh.length; if (stuck && o.error.code !== 'diff-unavailable') break;
				w.freshCalls.length = 0; o = await w.step(resume ?? START);
			}
			if (o.next === 'error') { const last = fresh[Math.min(w.fi, fresh.length) - 1]!; if (last !== 'd' && last !== 'x') bad('retry', `the same request repeated after a retryable failure answers ${canon(o)} (${canon(ctx)})`, ctx); continue; }
			if (o.next === 'confirm_wait') { if (resume) bad('wait:again', `asked again (${canon(ctx)})`, ctx); continue; }
			const last = fresh[Math.min(w.fi, fresh.length) - 1]!, groundUsed = w.gi ? ground[Math.min(w.gi, ground.length) - 1] : null;
			const degraded = resume !== null && proceed !== true || last !== 'f' || groundUsed === 'h';
			const onDiff = o.grounding?.symbols?.[0]?.name === DSYM.name; if (degraded !== onDiff) bad('mode', `${onDiff ? 'judges the diff' : 'judges the graph'} (${canon(ctx)})`, ctx);
			if (proceed !== true && resume && (w.fi > 1 || w.gi)) bad('decline:consulted', `after the user declined to wait the index was consulted again (${canon(ctx)})`, ctx);
			if (degraded) chk.nontrivial++;
			if (resume && proceed === true) {
				const waited = w.slept.reduce((a: number, b: number) => a + b, 0);
				if (w.slept.some((ms: number) => ms < 100)) bad('wait:busy', `polls every ${Math.min(...w.slept)} ms`, ctx);
				if (last !== 'f' && !'d x'.includes(last) && waited < timeout) bad('wait:short', `gave up after ${waited} of ${timeout} ms (${canon(ctx)})`, ctx);
				if (waited > (timeout + 5_000) * 5) bad('wait:long', `waited ${waited} ms of ${timeout} (${canon(ctx)})`, ctx);
				if (fresh.slice(1, w.fi - 1).includes('f') && groundUsed !== 'd' && !ground.includes('d') && !diff.includes('u')) bad('wait:missed', `went on waiting on a fresh index (${canon(ctx)})`, ctx);
			}
			if (resume) { const dead = await w.step({ ...resume, proceed: false }); if (dead.next !== 'error' || dead.error.code !== 'state-not-found') bad('token:reused', `a consumed wait token answered ${canon(dead).slice(0, 200)} (${canon(ctx)})`, ctx); }
			if (o.next !== 'emit_judgements') { bad('emit', `answered ${canon(o)} (${canon(ctx)})`, ctx); continue; }
			checkEmit(o, degraded, ctx); await answer(w, o.state, degraded, ctx);
		}
		// ---- 2. the judgements: every malformed shape refused without effect, every complete one recorded
		const cut = (o: any, f: (o: any) => void): any => { const c = structuredClone(o); f(c); return c; };
		const GOOD = full({ adherence: [F('adherence', 'LOW', 'src/a.ts:1')], quality: [F('quality', 'MED', 'b.md:9')] });
		const BADJ: any[] = [undefined, null, {}, { judgements: null }, { judgements: 'x' }, { judgements: [] }, { judgements: [null, ...GOOD.judgements] }, { judgements: GOOD.judgements.slice(1) }, { judgements: [...GOOD.judgements, GOOD.judgements[0]] }, { judgements: [...GOOD.judgements, { dimension: 'style', findings: [] }] }, { judgements: [GOOD.judgements[0], GOOD.judgements[0], GOOD.judgements[1], GOOD.judgements[2]] },
			...DIM.map((_, i) => ({ judgements: GOOD.judgements.filter((__: any, j: number) => j !== i) })), ...DIM.map((_, i) => cut(GOOD, o => { delete o.judgements[i].findings; })), ...DIM.map((_, i) => cut(GOOD, o => { o.judgements[i].dimension = i === 0 ? 'Adherence' : DIM[0]; })),
			...[null, 'f', 3, F('x', 'high', 'src/a.ts:1'), F('x', undefined, 'src/a.ts:1'), F('x', 'BLOCK', 'src/a.ts:1'), F('x', 'HIGH', 'src/a.ts'), F('x', 'HIGH', undefined), F('x', 'HIGH', 4), F('x', 'HIGH', 'src/a.ts:1', ''), { severity: 'HIGH', location: 'src/a.ts:1' }, F('x', 'HIGH', 'src/a.ts:1', 7), F('x', 'HIGH', 'other', '')].flatMap(f => [0, 3].map(i => cut(GOOD, o => { o.judgements[i].findings.push(f); })))];
		const PLACE = product<any>(['HIGH', 'MED', 'LOW'], LOCS), SETS: any[][] = [[]]; for (const p of PLACE) SETS.push([p]);
		const P2 = [...product<any>(['HIGH', 'MED', 'LOW'], ['src/a.ts:10', 'src/a.ts.bak:1', 'b.md:1'])]; for (const q of sequences(P2.length, 2)) SETS.push(q.map(i => P2[i]));
		const open = async (degraded: boolean, env: Partial<Env> = {}): Promise<any> => { const w = world({ subject: 'ok', fresh: ['f'], ground: [degraded ? 'h' : 'g'], diff: ['k'], timeout: 0, ...env }); w.token = (await w.step(START)).state; return w; };
		for (const degraded of [false, true]) for (let b = 0; b < BADJ.length; b++) {
			if (!turn()) continue; const ctx = { degraded, malformed: BADJ[b] }, w = await open(degraded); chk.evaluations++; chk.nontrivial++;
			for (let k = 0; k < 2; k++) { const o = await w.step({ phase: 'judgements', judgements: BADJ[k ? (b + 1) % BADJ.length : b], state: w.token }); if (o.next !== 'error' || o.error.code !== 'bad-judgements' || o.error.retryable !== true || w.writes.length) bad('malformed', `malformed judgements answered ${canon(o).slice(0, 300)}, ${w.writes.length} files written (${canon(ctx)})`, ctx); }
			await answer(w, w.token, degraded, ctx);
		}
		for (const degraded of [false, true]) for (const [di, set] of product<any>([0, 1, 2, 3], SETS)) for (const order of [DIM, [...DIM].reverse()]) {
			if (set.length === 2 && (di === 1 || di === 2) || order !== DIM && set.length > 1 || !turn()) continue;
			const cf = degraded ? DIFFCF : CF, w = await open(degraded), fs = set.map(([s, l]: any, i: number) => F(DIM[di]!, s, l, `msg ${i} | "q"\nline`, i ? {} : { expectationRef: 'e', counterpartRef: 'c', confidence: 'breach' })), ctx = { degraded, dimension: DIM[di], findings: set };
			const o = await w.step({ phase: 'judgements', judgements: full({ [DIM[di]!]: fs }, order), state: w.token }); chk.evaluations++;
			const dims = DIM.map((_, i) => i === di ? fs.filter((f: any) => inScope(f.location, cf)) : []), c = counts(dims.flat()); if (dims.flat().length !== fs.length || c.high) chk.nontrivial++;
			if (o.next !== 'done' || o.verdict !== fold(c, degraded) || canon(o.counts) !== canon(c)) bad('fold', `answered ${canon(o)} (${canon(ctx)})`, ctx);
			const flat = dims.map(l => l.map((f: any) => f)); record('record', ctx, w.writes, { dims: flat, cf, degraded, model: 'client' });
		}
		for (const degraded of [false, true]) for (const k of [1, 2]) {
			if (!turn()) continue; const w = await open(degraded), ctx = { degraded, failing: `write ${k}` }; w.wfail = k; chk.evaluations++; chk.nontrivial++;
			const o = await w.step({ phase: 'judgements', judgements: GOOD, state: w.token });
			if (o.next !== 'error' || o.error.retryable !== true) bad('write-failed', `a failed write answered ${canon(o)}`, ctx);
			w.writes.length = 0; w.wfail = 0; await answer(w, w.token, degraded, ctx);
		}
		// requests that are not steps of any conversation
		if (turn()) for (const input of [null, 3, 'x', {}, { phase: 'begin' }, { phase: 'start' }, { ...START, epicHash: '' }, { ...START, storyId: undefined }, { ...START, epicHash: 4 }, { phase: 'start', epicHash: EPIC, storyId: 's1' }, { phase: 'start', state: 'nope', proceed: true }, { phase: 'start', state: 'nope' }, { phase: 'judgements', judgements: GOOD }, { phase: 'judgements', judgements: GOOD, state: '' }, { phase: 'judgements', judgements: GOOD, state: 'nope' }]) {
			const w = world({ subject: 'ok', fresh: ['f'], ground: ['g'], diff: ['k'], timeout: 0 }), o = await w.step(input); chk.evaluations++;
			if (o.next !== 'error' || o.error.retryable || w.freshCalls.length || w.writes.length) bad('not-a-step', `${canon(input)} answered ${canon(o).slice(0, 300)}`, input);
		}
		// two reviews at once: every interleaving of their steps
		if (turn()) for (const il of sequences(2, 6)) {
			if (il.filter(x => x === 0).length !== 3) continue; chk.evaluations++;
			const ws = [world({ subject: 'ok', fresh: ['s', 'f'], ground: ['g'], diff: ['k'], timeout: 9000 }), world({ subject: 'ok', fresh: ['p'], ground: ['g'], diff: ['k'], timeout: 0 })], st: any[] = [null, null], at = [0, 0];
			for (const i of il) { const w = ws[i], n = at[i]!++; if (n === 0) st[i] = (await w.step(START)).state; else if (n === 1) st[i] = (await w.step({ phase: 'start', state: st[i], proceed: i === 0 })).state; else await answer(w, st[i], i === 1, { interleaving: il }); }
		}

		// ---- 3. the model-driven review: every answer of the four judges, every place to stop it
		const OUT: any[][] = [[{ findings: [] }], [{ findings: [{ severity: 'HIGH', location: 'src/a.ts:1', message: 'm' }] }], [{ findings: [{ severity: 'MED', location: 'b.md:1', message: 'm' }, { severity: 'LOW', location: 'src/a.ts:1', message: 'n' }] }], [{ findings: [{ severity: 'HIGH', location: 'src/a.ts.bak:1', message: 'm' }] }], ['junk', { findings: [{ severity: 'LOW', location: 'src/a.ts:1', message: 'm' }] }], ['junk'], ['throw']];
		const PB = await Promise.all(DIM.map(async d => (await repo(`src/workflow/code-review/dimensions/${d}.ts`))[`build${d[0]!.toUpperCase()}${d.slice(1)}Prompt`](CON(), { symbols: [SYM] }, undefined)[0].content.slice(0, 70)));
		if (new Set(PB).size !== 4) bad('prompts', 'two judges are asked the same', PB);
		const dimOf = (msgs: any[]): string => DIM[PB.indexOf(msgs[0].content.slice(0, 70))] ?? '?';
		async function review(behave: readonly number[], x: { bare?: boolean; stop?: number; ground?: 'throw'; wfail?: number; degraded?: boolean } = {}): Promise<any> {
			const writes: [string, string][] = [], ac = new AbortController(); let live = 0, over = 0, steps = 0, call = 0, wf = x.wfail ?? 0; const calls: string[] = [], texts: string[] = [];
			let per = 0, cur = '';
			const provider = { capabilities: { structuredOutput: true }, completeStructured: async (m: any[]) => { if (++live > 1) over++; await null; const d = dimOf(m); if (d !== cur) { cur = d; per = 0; } calls.push(d); texts.push(m.map(y => y.content).join('\n')); const l = OUT[behave[DIM.indexOf(d as any)] ?? 0]!, r = l[Math.min(per++, l.length - 1)]; live--; call++; if (r === 'throw') throw new Error('model down'); return r === 'junk' ? { findings: [{ severity: 'awful' }] } : structuredClone(r); } };
			const outcome = await RN.runCodeReview(x.bare ? SUBJ() : CON(), provider, { runId: 'r', modelLabel: 'm9', signal: ac.signal, onProgress: () => { if (x.stop !== undefined && steps++ === x.stop) ac.abort(); }, ...(x.degraded ? { groundingMode: 'degraded', capVerdictAtWarn: true } : {}) },
				{ ...RN.DEFAULT_DEPS, assembleGrounding: async (r: string, cf: any) => { await null; if (x.ground) throw new Error('no graph'); if (r !== '/r' || canon(cf) !== canon(CF)) bad('run:subject', `evidence for ${r} ${canon(cf)}`, behave); return { symbols: [SYM] }; }, write: (p: string, t: string) => { if (wf && --wf === 0) throw new Error('ENOSPC'); writes.push([p, t]); } });
			return { outcome, writes, over, calls, texts, steps, call };
		}
		for (const q of sequences(OUT.length, 4)) for (const degraded of [false, true]) {
			if (degraded && !(q[0] === q[1]) && !THOROUGH || !turn()) continue;
			const ctx = { judges: q, degraded }, fails = q.findIndex(i => i >= 5), r = await review(q, { degraded }); chk.evaluations++; if (fails >= 0 || q.some(i => i)) chk.nontrivial++;
			if (r.over) bad('run:parallel', `the model was asked by two judges at once`, ctx);
			if (fails >= 0) { if (r.outcome.ok || r.writes.length) bad('run:partial', `judge ${DIM[fails]} failed, yet the review answered ${canon(r.outcome).slice(0, 200)} and wrote ${r.writes.length} files (${canon(ctx)})`, ctx); if (fails < 3 && r.calls.includes(DIM[fails + 1]!)) bad('run:went-on', `judges ran after ${DIM[fails]} failed`, ctx); continue; }
			if (!r.outcome.ok) { bad('run:failed', `failed: ${r.outcome.error} (${canon(ctx)})`, ctx); continue; }
			const dims = DIM.map((d, i) => OUT[q[i]!]!.at(-1).findings.filter((f: any) => inScope(f.location, CF)).map((f: any) => ({ dimension: d, ...f })));
			record('run', ctx, r.writes, { dims, cf: CF, degraded, model: 'm9' });
			if (canon(r.outcome.artifact) !== canon(JSON.parse(r.writes.find((w: any) => w[0] === P.json)[1]))) bad('run:returned', 'the returned record is not the written one', ctx);
			if (r.writes[0][0] !== P.json) bad('run:order', 'the document was written before the record', ctx);
			// the same judgements through the client-driven surface give the same record
			const w = await open(degraded), fs = Object.fromEntries(DIM.map((d, i) => [d, OUT[q[i]!]!.at(-1).findings.map((f: any) => ({ dimension: d, ...f }))]));
			await w.step({ phase: 'judgements', judgements: full(fs), state: w.token });
			if (!degraded && canon(JSON.parse(w.writes[0][1]).body) !== canon(r.outcome.artifact.body)) bad('run:parity', `the two surfaces record different reviews (${canon(ctx)})`, ctx);
		}
		const total = (await review([0, 0, 0, 0])).steps + 12;
		for (const q of [[0, 0, 0, 0], [1, 2, 3, 4]]) for (let stop = 0; stop < total; stop++) {
			if (!turn()) continue; const r = await review(q, { stop }), base = await review(q); chk.evaluations++; chk.nontrivial++;
			if (r.outcome.ok ? canon(r.outcome.artifact.body) !== canon(base.outcome.artifact.body) || r.writes.length !== 2 : r.writes.length !== 0) bad('run:stopped', `stopped at step ${stop}: ${canon(r.outcome).slice(0, 200)}, ${r.writes.length} files`, { stop, q });
			if (r.outcome.ok && r.calls.length < base.calls.length) bad('run:short', `stopped at step ${stop}, judged ${r.calls}`, { stop, q });
			if (stop < 6 && r.outcome.ok) bad('run:ignored-stop', `stopped at step ${stop} before the judges were done, yet a record was written`, { stop, q });
		}
		if (turn()) for (const x of [{ ground: 'throw' as const }, { wfail: 1 }, { wfail: 2 }, { stop: -1 }]) { const r = await review([0, 0, 0, 0], x); chk.evaluations++; if (x.stop === -1) continue; if (r.outcome.ok || (x.wfail !== 2 && r.writes.length)) bad('run:fault', `${canon(x)}: ${canon(r.outcome)} with ${r.writes.length} files`, x); }
		// what each judge is shown, and a story without a contract
		if (turn()) for (const bare of [false, true]) {
			const r = await review([1, 1, 1, 1], { bare }), t = (d: string): string => r.texts[r.calls.indexOf(d)] ?? ''; chk.evaluations++; chk.nontrivial++;
			if (r.calls.length !== (bare ? 3 : 4) && !(bare && r.calls.includes('?') === false && r.calls.length === 3)) bad('run:asked', `asked ${r.calls} ${bare ? 'without' : 'with'} a contract`, { bare });
			if (!r.texts.every((x: string) => x.includes(SYM.name))) bad('run:evidence', 'a judge is not shown the changed symbols', { bare });
			if (!bare && (!t('adherence').includes('theDesignClause') || !t('coverage').includes('thePromisedTest'))) bad('run:contract', 'the adherence judge is not shown the design, or the coverage judge the promised tests', { bare });
			if (bare && (!r.outcome.ok || r.outcome.artifact.body.dimensions[0].findings.length || r.outcome.artifact.body.counts.high !== 3 && r.calls.length === 3 && !r.calls.includes('?'))) bad('run:bare', `without a contract: ${canon(r.outcome).slice(0, 300)}`, { bare });
		}
		// judges that answer for the wrong dimension never make a record
		for (const q of sequences(5, 4)) {
			if (!turn()) continue; const names = [...DIM, 'style'], writes: any[] = []; chk.evaluations++;
			const r = await RN.runCodeReview(SUBJ(), {} as any, { runId: 'r', modelLabel: 'm' }, { judges: DIM.map((d, i) => ({ dimension: d, judge: async () => ({ dimension: names[q[i]!], findings: [] }) })), assembleGrounding: async () => ({ symbols: [] }), write: (p: string) => writes.push(p) });
			const good = q.every((x, i) => x === i); if (r.ok !== good || writes.length !== (good ? 2 : 0)) bad('run:dimensions', `judges answering ${q.map(i => names[i])} gave ${canon(r).slice(0, 200)}`, q);
		}

		// ---- 4. the completion gate
		const home = process.env['HOME']!, root = join(SCRATCH, 'gate'), gp = SO.codeReviewArtifactPaths(root, EPIC, 's1').json, op = SO.codeReviewArtifactPaths(root, EPIC, 's2').json, xp = SO.codeReviewArtifactPaths(root, OTHER, 's1').json;
		mkdirSync(dirname(gp), { recursive: true });
		const C0 = { high: 2, med: 1, low: 0 };
		const recs: [string, string | null, string | null, any][] = [['absent', null, null, 0], ['corrupt', '{"body": {"verdict": "block"', null, 0], ['empty', '', null, 0], ['null', 'null', null, 0], ['no body', '{"meta":{}}', null, 0], ['null body', '{"body":null}', null, 0], ...['pass', 'warn', 'block'].flatMap(v => [C0, { high: 0, med: 0, low: 0 }, undefined, { high: 'x', med: -1 }].map((c, i): any => [`${v} ${i}`, JSON.stringify({ meta: {}, body: { verdict: v, counts: c } }), v, i === 0 ? C0 : { high: 0, med: 0, low: 0 }])), ...['BLOCK', 'blocked', '', 3, null].map((v): any => [`verdict ${v}`, JSON.stringify({ body: { verdict: v, counts: C0 } }), null, 0])];
		const CFG: [string, string | null, boolean][] = [['none', null, false], ['on', '{"codeReview":{"enforce":true}}', true], ['off', '{"codeReview":{"enforce":false}}', false], ['yes', '{"codeReview":{"enforce":"yes"}}', false], ['corrupt', '{"codeReview":{"enforce":tr', false], ['other', '{"enforce":true}', false]];
		if (turn()) for (const [rn, text, v, c] of recs) for (const [cn, cfg, on] of CFG) for (const enforce of [undefined, true, false]) for (const override of [undefined, '', 'because']) for (const others of [false, true]) {
			rmSync(gp, { force: true }); for (const p of [op, xp]) { rmSync(p, { force: true }); if (others) writeFileSync(p, JSON.stringify({ body: { verdict: v === 'block' ? 'pass' : 'block', counts: { high: 9, med: 9, low: 9 } } })); }
			if (text !== null) writeFileSync(gp, text);
			const cp = join(home, '.insrc/config.json'); if (cfg === null) rmSync(cp, { force: true }); else writeFileSync(cp, cfg);
			const opts = { ...(enforce === undefined ? {} : { enforce }), ...(override === undefined ? {} : { overrideReview: override }) }, ctx = { record: rn, config: cn, enforce, override, others };
			const r = G.enforceCodeReviewGate(root, EPIC, 's1', Object.keys(opts).length ? opts : undefined), eff = enforce ?? on; chk.evaluations++; if (v === 'block') chk.nontrivial++;
			const want = v === null ? 'no-review' : v !== 'block' ? v : !eff ? 'warn' : override ? 'overridden' : 'blocked';
			if (r.status !== want || v !== null && canon(r.counts) !== canon(c) || want === 'overridden' && (r.overrideReason !== override || !(Date.parse(r.at) > 0)) || (want === 'warn' && v === 'block') !== (r.advisory === true) || (['warn', 'blocked'].includes(want) && !r.message)) bad('gate', `the gate answers ${canon(r)}, expected ${want} (${canon(ctx)})`, ctx);
			if (text !== null && readFileSync(gp, 'utf8') !== text) bad('gate:wrote', 'the gate changed the record', ctx);
		}
		writeFileSync(join(home, '.insrc/config.json'), '{"logLevel":"fatal"}\n');

		// ---- 5. freshness: the rule on every combination, then the real graph and file system
		const T = 1_700_000_000_500, WM = [null, 0, T - 1, T, T + 1], MT = [0, T];
		for (const [a, ma, b, mb, ri] of product<any>(WM, MT, WM, MT, [0, T - 1, T, T + 1])) for (const proc of [false, true]) {
			if (!turn()) continue; chk.evaluations++;
			const r = await FR.computeCodeReviewFreshness('/r', ['a', 'b'], { isProcessing: () => proc, entityWatermark: async (_: string, f: string) => f === 'a' ? a : b, repoLastIndexed: async () => ri, fileMtime: async (_: string, f: string) => f === 'a' ? ma : mb });
			const stale = ([['a', a, ma], ['b', b, mb]] as any[]).filter(([, w, m]) => (w ?? ri) < m).map(x => x[0]); if (stale.length) chk.nontrivial++;
			if (r.isProcessing !== proc || canon(r.staleFiles) !== canon(stale)) bad('fresh:rule', `watermarks ${a}, ${b}, mtimes ${ma}, ${mb}, repo ${ri}: ${canon(r)}, expected stale ${stale}`, { a, ma, b, mb, ri });
		}
		const c = await openCtx(), A = join(SCRATCH, 'ra'), B = join(SCRATCH, 'rab'); for (const d of [A, B]) mkdirSync(join(d, 'src/__tests__'), { recursive: true });
		for (const d of [A, B]) await c.R.addRepo(null, { path: d, name: d.slice(-3), addedAt: new Date(T).toISOString(), status: 'ready' });
		const iso = (ms: number): string => new Date(ms).toISOString();
		const ent = (id: string, root: string, file: string, name: string, ms: number): any => ({ id, kind: 'function', name, language: 'typescript', repo: root, file: join(root, file), startLine: 1, endLine: 2, body: 'b', embedding: [], indexedAt: iso(ms), signature: `sig ${name}`, hash: 'h' });
		for (const f of ['src/x.ts', 'src/y.ts']) for (const d of [A, B]) { writeFileSync(join(d, f), 'x'); utimesSync(join(d, f), T / 1000, T / 1000); }
		const fd = await FR.realFreshnessGraphDeps();
		// which of the four (repository, file) pairs is indexed when
		const OPTS: (readonly number[])[] = [[], [T - 5], [T], [T - 5, T + 5], [T + 5, T - 5]];
		for (const q of sequences(OPTS.length, 4)) {
			if (!turn()) continue;
			for (const d of [A, B]) await c.E.deleteEntitiesForRepo(null, d);
			const places: [string, string][] = [[A, 'src/x.ts'], [A, 'src/y.ts'], [B, 'src/x.ts'], [B, 'src/y.ts']];
			await c.E.upsertEntities(null, places.flatMap(([d, f], i) => OPTS[q[i]!]!.map((ms, k) => ent(`${i}-${k}`.padEnd(32, '0'), d, f, `n${i}${k}`, ms))));
			for (const d of [A, B]) for (const ri of [T - 1, T]) {
				const r = await FR.computeCodeReviewFreshness(d, ['src/x.ts', 'src/y.ts', 'gone.ts'], { ...fd, isProcessing: () => false, repoLastIndexed: async () => ri }); chk.evaluations++; chk.nontrivial++;
				const stale = places.filter(([p, _f], i) => p === d && (OPTS[q[i]!]!.length ? Math.max(...OPTS[q[i]!]!) < T : ri < T)).map(x => x[1]);
				if (canon(r.staleFiles) !== canon(stale)) bad('fresh:real', `stale ${canon(r.staleFiles)} in ${d === A ? 'A' : 'B'}, expected ${canon(stale)} (indexed ${canon(q.map(i => OPTS[i]))})`, q);
			}
		}
		// ---- 6. graph evidence: the changed files' symbols with their callers, callees and tests, in this repository
		const names = ['a.x', 'a.y', 'a.test', 'b.x', 'b.test'], file = ['src/x.ts', 'src/y.ts', 'src/__tests__/x.test.ts', 'src/x.ts', 'src/x.spec.ts'], where = [A, A, A, B, B], pairs: [number, number][] = [];
		for (const [f, t] of product<number>([0, 1, 2], [0, 1, 2])) if (f !== t) pairs.push([f, t]);
		pairs.push([3, 4], [4, 3]);
		const gd = await GR.realGroundingDeps();
		for (const es of subsets(pairs)) {
			if (!turn()) continue;
			for (const d of [A, B]) await c.E.deleteEntitiesForRepo(null, d);
			await c.E.upsertEntities(null, names.map((n, i) => ent(`g${i}`.padEnd(32, '0'), where[i]!, file[i]!, n, T)));
			await c.REL.upsertRelations(null, es.map(([f, t]) => ({ kind: 'CALLS', from: `g${f}`.padEnd(32, '0'), to: `g${t}`.padEnd(32, '0'), resolved: true })));
			if (es.length) await c.REL.upsertRelations(null, [{ kind: 'REFERENCES', from: 'g2'.padEnd(32, '0'), to: 'g0'.padEnd(32, '0'), resolved: true }]);
			for (const [d, cf] of [[A, ['src/x.ts', 'src/y.ts']], [A, ['src/y.ts']], [B, ['src/x.ts']], [A, ['nothing.md']], [A, ['src/x.spec.ts']]] as [string, string[]][]) {
				const g = await GR.assembleCodeReviewGrounding(d, cf, gd); chk.evaluations++; chk.nontrivial++;
				const isT = (i: number): boolean => i === 2 || i === 4;
				const want = names.flatMap((n, i) => where[i] === d && cf.includes(file[i]!) ? [{ file: file[i], kind: 'function', name: n, signature: `sig ${n}`, callers: es.filter(e => e[1] === i).map(e => names[e[0]]).sort(), callees: es.filter(e => e[0] === i).map(e => names[e[1]]).sort(), testsReaching: es.filter(e => e[1] === i && isT(e[0])).map(e => names[e[0]]).sort() }] : []);
				const got = g.symbols.map(({ entityId: _e, ...s }: any) => ({ ...s, callers: [...s.callers].sort(), callees: [...s.callees].sort(), testsReaching: [...s.testsReaching].sort() }));
				const key = (l: any[]): string => canon([...l].sort((a, b) => a.name < b.name ? -1 : 1)); if (key(got) !== key(want)) bad('grounding', `for ${cf} of ${d === A ? 'A' : 'B'}: ${canon(got)}, expected ${canon(want)}`, { es, cf });
			}
		}
		if (turn()) for (const [f, t] of [['src/__tests__/a.ts', true], ['__tests__/a.ts', true], ['a.test.ts', true], ['a.spec.tsx', true], ['x/a.test.mjs', true], ['a.spec.cts', true], ['src/a.ts', false], ['src/test.ts', false], ['src/a.testing.ts', false], ['my__tests__/a.ts', false], ['a.test.md', false], ['contest.ts', false]] as [string, boolean][]) { chk.evaluations++; if (GR.isTestFile(f) !== t) bad('test-file', `${f} counts ${t ? 'as code' : 'as a test'}`, f); }

		// ---- 7. the subject
		const OUTC: Record<string, () => any> = { ok: () => ({ n: 'art' }), missing: () => { throw new GA.ArtifactMissingError('x'); }, unapproved: () => { throw new GA.ArtifactNotApprovedError('x'); }, corrupt: () => { throw new SyntaxError('x'); } };
		if (turn()) for (const [l, p, f, b] of product<any>(Object.keys(OUTC), Object.keys(OUTC), ['ok', 'none', 'empty', 'fail'], ['yes', 'no', 'throw', 'absent'])) {
			let r: any; chk.evaluations++; const ctx = { lld: l, plan: p, files: f, build: b };
			try { r = await SU.resolveCodeReviewSubject('/r', EPIC, 's1', { requireApprovedLld: OUTC[l], requireApprovedPlan: OUTC[p], changedFiles: async () => { if (f === 'none') throw new SU.NoBuildChangesError('x'); if (f === 'fail') throw new TypeError('x'); return f === 'empty' ? [] : CF; }, ...(b === 'absent' ? {} : { readBuildRecord: () => { if (b === 'throw') throw new RangeError('x'); return b === 'yes' ? { rec: 1 } : null; } }) }); } catch (e) { r = (e as Error).name; }
			const want: any = l === 'corrupt' || p === 'corrupt' ? 'SyntaxError' : f === 'none' ? { ok: false, reason: 'no-build-record' } : f === 'fail' ? 'TypeError' : b === 'throw' ? 'RangeError' : { ok: true, subject: { ...SUBJ(f === 'empty' ? [] : CF), approvedLld: l === 'ok' ? { n: 'art' } : null, approvedPlan: p === 'ok' ? { n: 'art' } : null, buildRecord: b === 'yes' ? { rec: 1 } : null } };
			if (canon(r) !== canon(want)) bad('subject', `${canon(ctx)} resolves to ${canon(r)}, expected ${canon(want)}`, ctx);
		}
		// ---- 8. the working tree: every combination of states of two files (and a long one), read from real git
		const env = { ...process.env, GIT_CONFIG_GLOBAL: '/dev/null', GIT_CONFIG_SYSTEM: '/dev/null', GIT_AUTHOR_NAME: 'n', GIT_AUTHOR_EMAIL: 'e@x', GIT_COMMITTER_NAME: 'n', GIT_COMMITTER_EMAIL: 'e@x' };
		let gn = 0;
		const STATES = ['same', 'unstaged', 'staged', 'both', 'added', 'deleted', 'removed', 'renamed', 'binary', 'shrunk'] as const, FILES = ['src/deep/one.ts', 'Ünï two.md'];
		const lines = (n: number, tag: string): string[] => Array.from({ length: n }, (_, i) => `${tag} line ${i}`);
		for (const [sa, sb] of product<any>(STATES, STATES)) for (const committed of [false, true]) for (const cfg of ['', 'diff.mnemonicPrefix']) {
			if (cfg && (sa !== sb && sb !== 'same' || committed) || !turn()) continue;
			const d = join(SCRATCH, `git${gn++}-${job}`); mkdirSync(join(d, 'src/deep'), { recursive: true });
			const git = (...a: string[]): string => execFileSync('git', a, { cwd: d, env, encoding: 'utf8', stdio: ['ignore', 'pipe', 'pipe'] });
			git('init', '-q', '-b', 'main'); if (cfg) git('config', cfg, 'true'); writeFileSync(join(d, 'keep'), 'k\n');
			const base = FILES.map(f => lines(30, f)); const states = [sa, sb];
			FILES.forEach((f, i) => { if (states[i] !== 'added') writeFileSync(join(d, f), base[i]!.join('\n') + '\n'); });
			git('add', '-A'); git('commit', '-qm', 'base');
			const want: { path: string; has: string[]; not: string[] }[] = [];
			const put = (f: string, l: string[]): void => writeFileSync(join(d, f), l.join('\n') + '\n');
			FILES.forEach((f, i) => {
				const s = states[i], l = [...base[i]!], m1 = `mark-${i}-one`, m2 = `mark-${i}-two`, other = `mark-${1 - i}-`;
				if (s === 'same') return;
				if (s === 'unstaged') { l[3] = m1; put(f, l); want.push({ path: f, has: [`+${m1}`, `-${f} line 3`], not: [other] }); }
				if (s === 'staged') { l[3] = m1; put(f, l); git('add', f); want.push({ path: f, has: [`+${m1}`], not: [other] }); }
				if (s === 'both') { l[3] = m1; put(f, l); git('add', f); l[25] = m2; put(f, l); want.push({ path: f, has: [`+${m1}`, `+${m2}`], not: [other] }); }
				if (s === 'added') { put(f, [...l, m1]); git('add', f); want.push({ path: f, has: [`+${m1}`], not: [other] }); }
				if (s === 'deleted') { git('rm', '-q', f); want.push({ path: f, has: [`-${f} line 0`], not: [other] }); }
				if (s === 'removed') { rmSync(join(d, f)); want.push({ path: f, has: [`-${f} line 0`], not: [other] }); }
				if (s === 'renamed') { const to = join(dirname(f), `moved${i}.ts`); git('mv', f, to); l[3] = m1; put(to, l); git('add', to); want.push({ path: to, has: [`+${m1}`], not: [other] }); }
				if (s === 'binary') { writeFileSync(join(d, f), Buffer.from([0, 1, 2, 0])); git('add', f); want.push({ path: f, has: [], not: [other] }); }
				if (s === 'shrunk') { l.splice(10, 5); put(f, l); want.push({ path: f, has: [`-${f} line 12`], not: [other] }); }
			});
			if (committed) { git('add', '-A'); git('commit', '-qm', 'work', '--allow-empty'); }
			const ctx = { files: states, committed, cfg }; chk.evaluations++; chk.nontrivial++;
			// a clean tree falls back to the last commit: the work itself, or the base commit when there was none
			const first = !committed && want.length === 0;
			const r = await GR.assembleDiffCodeReviewGrounding(d);
			const exp = first ? ['keep', ...FILES.filter((_, i) => states[i] !== 'added')] : want.map(x => x.path);
			if (canon([...r.changedFiles].sort()) !== canon([...exp].sort())) bad('diff:files', `changed files ${canon(r.changedFiles)}, expected ${canon(exp)} (${canon(ctx)})`, ctx);
			for (const x of first ? [] : want) { const s = r.grounding.symbols.filter((y: any) => y.file === x.path); if (s.length !== 1) { bad('diff:symbols', `${s.length} entries for ${x.path} (${canon(ctx)})`, ctx); continue; } for (const h of x.has) if (!s[0].signature.includes(h)) bad('diff:hunks', `the entry of ${x.path} lacks "${h}" (${canon(ctx)})`, ctx); for (const n of x.not) if (s[0].signature.includes(n)) bad('diff:foreign', `the entry of ${x.path} shows another file's change (${canon(ctx)})`, ctx); }
			if (!committed) { const sub = await SU.resolveCodeReviewSubject(d, EPIC, 's1'); const got = sub.ok ? [...sub.subject.changedFiles].sort() : sub; if (canon(got) !== canon(want.map(x => x.path).sort())) bad('subject:git', `the subject covers ${canon(got)}, expected ${canon(want.map(x => x.path))} (${canon(ctx)})`, ctx); }
			rmSync(d, { recursive: true, force: true });
		}
		if (turn()) for (const kind of ['not a repository', 'no commits', 'huge']) {
			const d = join(SCRATCH, `gx-${kind.replaceAll(' ', '')}`); mkdirSync(d, { recursive: true }); chk.evaluations++;
			const git = (...a: string[]): void => { execFileSync('git', a, { cwd: d, env, stdio: 'ignore' }); };
			writeFileSync(join(d, 'f'), 'x\n'); if (kind !== 'not a repository') git('init', '-q');
			if (kind === 'huge') { git('add', '-A'); git('commit', '-qm', 'b'); writeFileSync(join(d, 'f'), lines(30_000, 'é long line number').join('\n') + '\n'); }
			const saved = process.env['GIT_CEILING_DIRECTORIES']; process.env['GIT_CEILING_DIRECTORIES'] = SCRATCH;
			let r: any; try { r = await GR.assembleDiffCodeReviewGrounding(d); } catch (e) { r = e; }
			if (kind === 'huge') { const s: string = r.grounding?.symbols?.[0]?.signature ?? ''; if (!s.includes('+é long line number line 0') || !/truncated/i.test(s)) bad('diff:huge', `a very long diff is shown as ${JSON.stringify(s.slice(0, 80))}… (${s.length} characters), not as a truncated diff`, kind); }
			else { if (!(r instanceof GR.DiffUnavailableError)) bad('diff:unavailable', `${kind}: ${canon(r)}`, kind); if (kind === 'not a repository') { const s = await SU.resolveCodeReviewSubject(d, EPIC, 's1'); if (canon(s) !== canon({ ok: false, reason: 'no-build-record' })) bad('subject:unavailable', `${kind}: ${canon(s)}`, kind); } }
			if (saved === undefined) delete process.env['GIT_CEILING_DIRECTORIES']; else process.env['GIT_CEILING_DIRECTORIES'] = saved;
		}
	});
	chk.assumptions.push('the daemon connection, the clock and the model are scripted; git, the graph store and the file system are real');
	chk.finish();
});
