// C27: design conversations: every token continues exactly its own conversation at its own stage, as often as it is used.
import { Check, main, THOROUGH, canon, repo, SCRATCH, sequences } from '../lib/mc.mts';
import { withFault } from '../lib/fsfault.mts';
import { installClock, clock } from '../lib/vtime.mts';
import { World } from '../lib/wf.mts';
import { readFileSync } from 'node:fs';
import { join } from 'node:path';

type Tok = { conv: number; stage: 'plan' | 'step' | 'synth'; plan?: string; at?: number; turns?: any[]; outs: Record<string, any>; dead?: boolean };
const FOCUS = ['Alpha one', 'Beta two'];
// plans: each step is [id, runner, params]
const PLANS: Record<string, [string, string, any][]> = {
	det: [['s1', 'note', { x: 'd' }], ['s2', 'note', { y: '$s1.got.x', all: ['$s1'] }]],
	ask: [['s1', 'ask', { q: 'one?' }], ['s2', 'note', { y: '$s1.answer' }]],
	two: [['s1', 'note', { x: 7 }], ['s2', 'ask', { q: '$s1.got' }], ['s3', 'ask', { q: '$s2.answer.v', k: 'z' }]],
};
const BADPLANS: Record<string, any> = {
	mismatch: { workflow: 'define', steps: [{ id: 's1', runner: 'note', params: {} }] }, empty: { workflow: 'stub', steps: [] },
	unknown: { workflow: 'stub', steps: [{ id: 's1', runner: 'nope', params: {} }] }, dangling: { workflow: 'stub', steps: [{ id: 's1', runner: 'note', params: { a: '$s9.x' } }] },
	fails: { workflow: 'stub', steps: [{ id: 's1', runner: 'note', params: {} }, { id: 's2', runner: 'fail', params: {} }] }, throws: { workflow: 'stub', steps: [{ id: 's1', runner: 'boom', params: {} }] },
	none: undefined, nosteps: { workflow: 'stub' },
};
const planOf = (n: string): any => ({ workflow: 'stub', steps: PLANS[n]!.map(([id, runner, params]) => ({ id, runner, params })) });
/** the model's own placeholder substitution */
function fill(v: any, outs: any): any { if (typeof v === 'string' && v.startsWith('$s')) { let o: any = outs; for (const p of v.slice(1).split('.')) o = o[p]; return o; } return Array.isArray(v) ? v.map(x => fill(x, outs)) : v && typeof v === 'object' ? Object.fromEntries(Object.entries(v).map(([k, x]) => [k, fill(x, outs)])) : v; }
/** run the deterministic steps from `at` */
function advance(t: Tok): Tok {
	const steps = PLANS[t.plan!]!; let i = t.at!; const outs = { ...t.outs };
	while (i < steps.length) { const [id, r, p] = steps[i]!; const params = fill(p, outs); if (r === 'ask') return { ...t, stage: 'step', at: i, turns: [], outs }; outs[id] = { got: params, seen: Object.keys(outs).sort(), run: t.conv }; i++; }
	return { conv: t.conv, stage: 'synth', plan: t.plan, outs };
}
const ART = (n: number): any => ({ body: { title: `T${n}`, summary: 'because [[c1]]', bulletList: ['b'] }, citations: [{ id: 'c1', kind: 'file', ref: `src/${n}.ts` }] });
const BADART: any[] = [{ body: { title: 'T', summary: 'dangling [[c2]]', bulletList: ['b'] }, citations: [{ id: 'c1', kind: 'file', ref: 'a' }] }, { body: {}, citations: [] }, undefined, { body: { title: 'T', summary: 's', bulletList: ['b'] } }];

main(async () => {
	const chk = new Check('C27', 'model_checking');
	chk.rule = 'every reachable set of tokens of up to two conversations; in each, every further request on every token';
	await chk.sharded(async mine => {
		installClock();
		const H = await repo('src/mcp/workflow-step/handler.ts'), SS = await repo('src/mcp/workflow-step/state-store.ts'), EX = await repo('src/workflow/executor.ts'), SY = await repo('src/workflow/storage.ts');
		let gate: null | (() => Promise<void>) = null; const focusOf = (f: string): number => FOCUS.indexOf(f);
		EX._clearRunnerRegistryForTests();
		EX.registerRunner({ id: 'note', workflow: 'stub', run: async (c: any) => { if (gate) await gate(); return { type: 'output', output: { got: c.params, seen: Object.keys(c.stepOutputs).sort(), run: focusOf(c.intent.focus) }, summary: 's' }; } });
		EX.registerRunner({ id: 'note', workflow: 'define', run: async () => ({ type: 'output', output: {}, summary: 's' }) });
		EX.registerRunner({ id: 'fail', workflow: 'stub', run: async () => ({ type: 'error', code: 'no-luck', message: 'm1', retryable: true }) });
		EX.registerRunner({ id: 'boom', workflow: 'stub', run: async () => { throw new Error('bang'); } });
		const ask = (turn: number, c: any, blob: any): any => ({ type: 'llm-pause', prompt: `ask turn ${turn}`, userTurn: JSON.stringify([c.params, c.stepOutputs, blob]), schema: { type: 'object', turn }, preparedBlob: blob });
		EX.registerRunner({ id: 'ask', workflow: 'stub', run: async (c: any) => { if (gate) await gate(); return ask(0, c, { turns: [], run: focusOf(c.intent.focus) }); }, finalize: async (resp: any, blob: any, c: any) => {
			if (gate) await gate();
			if (resp.bad) return { type: 'error', code: 'bad-answer', message: 'm2', retryable: resp.bad === 'retry' };
			if (resp.boom) throw new Error('bang');
			const turns = [...blob.turns, resp];
			return resp.again ? ask(turns.length, c, { turns, run: blob.run }) : { type: 'output', output: { answer: resp, turns, run: blob.run } };
		} });
		const W = [new World(join(SCRATCH, 'wa')), new World(join(SCRATCH, 'wb'))];
		const call = async (x: any): Promise<any> => { chk.transitions++; clock.now += 1; const r = await H.handleWorkflowStep(x); const o = JSON.parse(r.content[0].text); if ((o.next === 'error') !== (r.isError === true)) chk.violation('frame', `an answer "${o.next}" with isError ${r.isError}`, { call: x }); return o; };

		type Op = { k: 'start'; c: number } | { k: 'plan'; t: number; p: string } | { k: 'step'; t: number; r: any } | { k: 'synth'; t: number; n: number };
		const RESP = [{ v: 'yes' }, { again: 1, v: 'hm' }];
		type M = { toks: Tok[]; files: Record<string, any> };
		const enabled = (m: M): Op[] => {
			const o: Op[] = []; for (const c of [0, 1]) if (c === 0 || m.toks.some(t => t.conv === 0)) o.push({ k: 'start', c });
			m.toks.forEach((t, i) => { if (t.dead) return; if (t.stage === 'plan') for (const p of Object.keys(PLANS)) o.push({ k: 'plan', t: i, p }); else if (t.stage === 'step') for (const r of RESP) { if (!(r.again && t.turns!.length)) o.push({ k: 'step', t: i, r }); } else o.push({ k: 'synth', t: i, n: i }); });
			return o;
		};
		const mstep = (m: M, op: Op): M => {
			if (op.k === 'start') return { ...m, toks: [...m.toks, { conv: op.c, stage: 'plan', outs: {} }] };
			const t = m.toks[op.t]!;
			if (op.k === 'plan') return { ...m, toks: [...m.toks, advance({ conv: t.conv, stage: 'plan', plan: op.p, at: 0, outs: {} })] };
			if (op.k === 'step') { const turns = [...t.turns!, op.r]; if (op.r.again) return { ...m, toks: [...m.toks, { ...t, turns }] }; const id = PLANS[t.plan!]![t.at!]![0]; return { ...m, toks: [...m.toks, advance({ conv: t.conv, stage: 'step', plan: t.plan, at: t.at! + 1, outs: { ...t.outs, [id]: { answer: op.r, turns, run: t.conv } } })] }; }
			return { toks: m.toks.map((x, i) => i === op.t ? { ...x, dead: true } : x), files: { ...m.files, [t.conv]: op.n } };
		};
		const key = (m: M): string => canon([m.toks.map(t => canon(t)).sort(), m.files]);
		// explore the model
		type Node = { path: Op[]; m: M }; const D = THOROUGH ? 7 : 6; const nodes: Node[] = []; const seen = new Set<string>();
		let layer: Node[] = [{ path: [], m: { toks: [], files: {} } }]; const counts: number[] = [];
		for (let d = 0; d <= D; d++) { nodes.push(...layer); counts.push(layer.length); const nx: Node[] = []; if (d < D) for (const n of layer) for (const op of enabled(n.m)) { const m = mstep(n.m, op), k = key(m); if (!seen.has(k)) { seen.add(k); nx.push({ path: [...n.path, op], m }); } } layer = nx; }
		chk.extra = { ...(chk.extra ?? {}), explored_depth: String(D), layers: counts };
		const expectTok = (o: any, t: Tok, ctx: any): void => {
			const want = t.stage === 'plan' ? 'emit_plan' : t.stage === 'step' ? 'emit_step' : 'emit_synthesize';
			if (o.next !== want) { chk.violation('answer', `answers "${o.next}" ${canon(o.error ?? null)}, expected "${want}"`, ctx); return; }
			if (typeof o.state !== 'string') chk.violation('token', `no state in ${canon(o)}`, ctx);
			if (t.stage === 'plan' && !o.userTurn.includes(FOCUS[t.conv]!)) chk.violation('focus', `the plan prompt of "${FOCUS[t.conv]}" reads ${o.userTurn}`, ctx);
			if (t.stage === 'step') {
				const [id, r, p] = PLANS[t.plan!]![t.at!]!; const blob = { turns: t.turns, run: t.conv };
				if (o.stepId !== id || o.runner !== r || o.prompt !== `ask turn ${t.turns!.length}` || canon(o.schema) !== canon({ type: 'object', turn: t.turns!.length }) || canon(JSON.parse(o.userTurn)) !== canon([fill(p, t.outs), t.outs, blob])) chk.violation('step', `hands out ${canon({ stepId: o.stepId, runner: o.runner, prompt: o.prompt, userTurn: o.userTurn, schema: o.schema })} for step ${id} with ${canon([fill(p, t.outs), t.outs, blob])}`, ctx);
			}
			if (t.stage === 'synth') {
				const text = o.userTurn + o.prompt; for (const [id, v] of Object.entries(t.outs)) if (!text.replace(/\s+/g, '').includes(JSON.stringify(v).replace(/\s+/g, ''))) chk.violation('outputs', `the synthesize prompt lacks the output of ${id} (${canon(v)}): ${text}`, ctx);
			}
		};
		const send = (op: Op, tk: string[], m: M): Promise<any> => op.k === 'start' ? call({ phase: 'start', workflow: 'stub', focus: FOCUS[op.c], repo: W[op.c]!.root, params: {} })
			: op.k === 'plan' ? call({ phase: 'plan', state: tk[op.t], plan: planOf(op.p) })
			: op.k === 'step' ? call({ phase: 'step', state: tk[op.t], stepId: PLANS[m.toks[op.t]!.plan!]![m.toks[op.t]!.at!]![0], response: op.r })
			: call({ phase: 'synthesize', state: tk[op.t], artifact: ART(op.n) });
		const show = (op: Op): string => op.k === 'start' ? `start ${op.c}` : op.k === 'plan' ? `plan ${op.p} on #${op.t}` : op.k === 'step' ? `answer ${canon(op.r)} on #${op.t}` : `synthesize on #${op.t}`;
		const checkFiles = (m: M, ctx: any): string => {
			const snaps = W.map(w => w.snap());
			snaps.forEach((s, c) => { const want = m.files[c] === undefined ? 0 : 2; const fs = Object.keys(s); if (fs.length !== want) { chk.violation('files', `conversation ${c} has ${canon(fs)} on disk, expected ${want} files`, ctx); return; }
				if (want) { const j = JSON.parse(s[fs.find(f => f.endsWith('.json'))!] ?? 'null'), md = s[fs.find(f => f.endsWith('.md'))!] ?? ''; if (canon([j?.body, j?.citations]) !== canon([ART(m.files[c]).body, ART(m.files[c]).citations]) || j.meta.workflow !== 'stub' || j.meta.repoPath !== W[c]!.root) chk.violation('artifact', `on disk: ${canon(j)}`, ctx); if (!md.includes(`T${m.files[c]}`) || !md.includes(`src/${m.files[c]}.ts`)) chk.violation('document', `document: ${md}`, ctx); } });
			return canon(snaps);
		};
		const replay = async (path: Op[], ctx: any): Promise<{ tk: string[]; m: M }> => {
			SS._clearWorkflowStateStoreForTests(); for (const w of W) { w.snap(); w.set({}); }
			let m: M = { toks: [], files: {} }; const tk: string[] = [];
			for (const op of path) {
				const o = await send(op, tk, m), nm = mstep(m, op);
				if (op.k === 'synth') { if (o.next !== 'done') chk.violation('done', `synthesize answers "${o.next}" ${canon(o.error ?? null)}`, ctx); else { if (!o.path.startsWith(W[m.toks[op.t]!.conv]!.root + '/') || readFileSync(o.path, 'utf8') !== o.markdown || canon(o.artifact.body) !== canon(ART(op.n).body)) chk.violation('done', `done reports ${o.path}: ${o.markdown}`, ctx); } }
				else { expectTok(o, nm.toks.at(-1)!, ctx); if (tk.includes(o.state)) chk.violation('reused', 'two different continuations share a token', ctx); tk.push(o.state); }
				m = nm;
			}
			return { tk, m };
		};
		for (const [i, n] of nodes.entries()) {
			if (!mine(i)) continue; chk.states++;
			const ctx = { history: n.path.map(show) };
			const { tk, m } = await replay(n.path, ctx); const before = checkFiles(m, ctx);
			if (n.path.length === D && !THOROUGH && i % 3) continue; // the refused requests: every third of the deepest states
			const refuse = async (what: string, x: any): Promise<void> => {
				const o = await call(x); chk.evaluations++;
				if (o.next !== 'error' || typeof o.error?.code !== 'string' || typeof o.error.retryable !== 'boolean') chk.violation('accepted: ' + what, `${what} is answered ${canon(o).slice(0, 300)}`, { ...ctx, request: what });
				if (what.includes('!retry') !== (o.error?.retryable === true) && /answer|fails/.test(what)) chk.violation('retryable', `${what}: retryable is ${o.error?.retryable}`, { ...ctx, request: what });
			};
			for (const [ti, t] of m.toks.entries()) {
				const s = tk[ti], n0 = `#${ti} (${t.dead ? 'finished' : t.stage})`;
				if (t.dead || t.stage !== 'plan') for (const p of ['det', 'ask']) await refuse(`plan on ${n0}`, { phase: 'plan', state: s, plan: planOf(p) });
				if (t.dead || t.stage !== 'step') for (const id of ['s1', 's2', 's3']) await refuse(`step ${id} on ${n0}`, { phase: 'step', state: s, stepId: id, response: { v: 1 } });
				if (t.dead || t.stage !== 'synth') await refuse(`synthesize on ${n0}`, { phase: 'synthesize', state: s, artifact: ART(9) });
				if (t.dead) continue;
				if (t.stage === 'plan') for (const [k, p] of Object.entries(BADPLANS)) await refuse(`plan ${k}${k === 'fails' ? ' !retry' : ''} on ${n0}`, { phase: 'plan', state: s, plan: p });
				if (t.stage === 'step') { const id = PLANS[t.plan!]![t.at!]![0]; for (const w of ['s1', 's2', 's3', 's9', '', undefined]) if (w !== id) await refuse(`step ${w} on ${n0}`, { phase: 'step', state: s, stepId: w, response: { v: 1 } }); await refuse(`bad answer !retry on ${n0}`, { phase: 'step', state: s, stepId: id, response: { bad: 'retry' } }); await refuse(`bad answer on ${n0}`, { phase: 'step', state: s, stepId: id, response: { bad: 1 } }); await refuse(`throwing answer on ${n0}`, { phase: 'step', state: s, stepId: id, response: { boom: 1 } }); await refuse(`no response on ${n0}`, { phase: 'step', state: s, stepId: id }); }
				if (t.stage === 'synth') for (const a of BADART) await refuse(`bad artifact ${canon(a ?? null)} on ${n0}`, { phase: 'synthesize', state: s, artifact: a });
			}
			if (n.path.length <= 2) for (const s of ['', 'x', 'A'.repeat(22), 'A'.repeat(129), undefined, null, 7, {}, '__proto__', 'constructor']) for (const ph of ['plan', 'step', 'synthesize']) await refuse(`${ph} with token ${String(s)}`, { phase: ph, state: s, plan: planOf('det'), stepId: 's1', response: {}, artifact: ART(1) });
			if (n.path.length <= 1) for (const x of [null, 7, 'start', [], {}, { phase: 'zzz' }, { phase: null }, { phase: 'constructor' }]) await refuse(`malformed request ${canon(x)}`, x);
			if (checkFiles(m, ctx) !== before) chk.violation('effect', 'a refused request changed the files', ctx);
			// after all of that every live token still continues as it would have
			for (const [ti, t] of m.toks.entries()) if (!t.dead) { const op = enabled(m).find(o => o.k !== 'start' && o.t === ti)!; const o = await send(op, tk, m); chk.nontrivial++; if (op.k === 'synth') { if (o.next !== 'done') chk.violation('after refusals', `synthesize on #${ti} after refused requests answers "${o.next}" ${canon(o.error ?? null)}`, ctx); } else expectTok(o, mstep(m, op).toks.at(-1)!, { ...ctx, after: 'refused requests' }); }
		}
		// overlapping requests: each continues its own token, whatever the order in which their steps finish
		const OV: Op[][] = [[{ k: 'start', c: 0 }, { k: 'start', c: 1 }], [{ k: 'start', c: 0 }, { k: 'start', c: 1 }, { k: 'plan', t: 0, p: 'ask' }, { k: 'plan', t: 1, p: 'two' }]];
		let job = 0;
		for (const path of OV) { const m0 = path.reduce(mstep, { toks: [], files: {} } as M), ops = enabled(m0).filter(o => o.k !== 'start' && o.k !== 'synth'); for (const a of ops) for (const b of ops) for (const order of sequences(2, 4)) {
			if (!mine(job++)) continue; const ctx = { history: path.map(show), overlap: [show(a), show(b)], order };
			gate = null; const { tk, m } = await replay(path, ctx); const held: (() => void)[] = []; gate = () => new Promise<void>(r => { held.push(r); });
			const out: any[] = []; const ps = [a, b].map((o, i) => send(o, tk, m).then(r => { out[i] = r; }));
			for (let i = 0; i < 60 && (out[0] === undefined || out[1] === undefined); i++) { await new Promise(r => setImmediate(r)); if (held.length) held.splice(order[i % 4]! % held.length, 1)[0]!(); }
			gate = null; held.forEach(h => h()); await Promise.all(ps); chk.traces++; chk.nontrivial++;
			[a, b].forEach((o, i) => expectTok(out[i], mstep(m, o).toks.at(-1)!, ctx)); if (out[0].state === out[1].state) chk.violation('reused', 'two overlapping requests got one token', ctx);
		} }
		// an I/O error at any write of the artifact: reported, and synthesize can be repeated
		for (let at = 0; at < 5; at++) if (mine(job++)) {
			const path: Op[] = [{ k: 'start', c: 0 }, { k: 'plan', t: 0, p: 'det' }], ctx = { failing_write: at }; const { tk, m } = await replay(path, ctx);
			let fired = false; const r = await withFault(W[0]!.root, at, 'error', async () => { const o = await call({ phase: 'synthesize', state: tk[1], artifact: ART(1) }); return o; }) as any;
			const o = r.value ?? r.result ?? r; fired = r.fired ?? o.next === 'error'; void fired;
			if (o?.next === 'done') { checkFiles(mstep(m, { k: 'synth', t: 1, n: 1 }), ctx); continue; }
			chk.nontrivial++; const o2 = await call({ phase: 'synthesize', state: tk[1], artifact: ART(1) }); if (o2.next !== 'done') chk.violation('retry', `after a failed write synthesize answers ${canon(o2)}`, ctx);
		}
		// the token stores: a bounded number of entries, least recently used first out, an hour without use
		const STORES: [string, string][] = [['src/mcp/workflow-step/state-store.ts', 'runId'], ['src/mcp/review-step/state-store.ts', 'runId'], ['src/mcp/code-review-step/state-store.ts', 'runId'], ['src/mcp/analyze-step/state-store.ts', 'runId']];
		const H1 = 3_600_000;
		for (const [path] of STORES) {
			const S = await repo(path); const clear = Object.entries(S).find(([k]) => /^_clear/.test(k))![1] as any;
			const has = (t: string): any => { try { return S.loadState(t); } catch (e) { return undefined; } };
			const OPS = ['save', 'load0', 'load1', 'loadN', 'drop0', 'dropN', 'half', 'hour', 'more'];
			for (const fill0 of [0, 1, 98, 99, 100]) for (const seq of sequences(OPS.length, fill0 === 100 || fill0 === 1 ? (THOROUGH ? 6 : 4) : 3)) {
				if (!mine(job++)) continue;
				clear(); let live: { t: string; v: any; at: number }[] = []; let n = 0; const ctx = { store: path, filled: fill0, ops: seq.map(i => OPS[i]) };
				const save = (): void => { clock.now += 1; live = live.filter(e => clock.now - e.at <= H1); if (live.length >= 100) { live.sort((a, b) => a.at - b.at); live = live.slice(live.length - 99); } const v = { runId: 'r' + n++, stage: 's' }; live.push({ t: S.saveState(v), v, at: clock.now }); chk.transitions++; };
				for (let i = 0; i < fill0; i++) save();
				for (const i of seq) { const o = OPS[i]!; clock.now += 1; live.sort((a, b) => a.at - b.at);
					if (o === 'save') save(); else if (o === 'half') clock.now += H1 / 2; else if (o === 'hour') clock.now += H1 - 300; else if (o === 'more') clock.now += H1 + 1;
					else { const e = live[o.endsWith('0') ? 0 : o.endsWith('1') ? 1 : live.length - 1]; if (!e) continue; if (o.startsWith('drop')) { S.releaseState(e.t); live = live.filter(x => x !== e); } else { const v = has(e.t); if (v === undefined && clock.now - e.at > H1) { live = live.filter(x => x !== e); continue; } if (canon(v ?? null) !== canon(e.v)) chk.violation('store', `token ${e.v.runId} gives ${canon(v ?? null)}`, ctx); e.at = clock.now; } }
				}
				save(); chk.nontrivial++; const gone: string[] = []; for (const e of live) { const v = has(e.t); if (canon(v ?? null) !== canon(e.v)) gone.push(e.v.runId); }
				if (gone.length) chk.violation('evicted', `entries ${gone} are lost although at most 100 are kept and they were used within the hour`, ctx);
				const size = (Object.entries(S).find(([k]) => /Size$/.test(k))?.[1] as any)?.(); if (size !== undefined && size !== live.length) chk.violation('kept', `${size} entries are kept, expected ${live.length}`, ctx);
			}
		}
		void SY;
	});
	chk.assumptions.push('runners and model answers are stand-ins; real workflows\' runners are covered by other checks');
	chk.finish();
});
