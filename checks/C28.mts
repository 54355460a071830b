// C28: a review of an artifact judges every premise once on true evidence, edits exactly what may be edited, and records exactly its result.
import { Check, main, THOROUGH, canon, repo, SCRATCH, sequences, product } from '../lib/mc.mts';
import { withFault } from '../lib/fsfault.mts';
import { World, EPIC } from '../lib/wf.mts';
import { mkdirSync, writeFileSync, readFileSync, rmSync } from 'node:fs';
import { join } from 'node:path';

const MARK = '<!-- insrc:review -->', T0 = '2026-01-02T03:04:05.000Z';
const DOC = `<!-- insrc:artifact DEF-${EPIC} -->\n# T\n\nalpha beta alpha\ngamma $x delta\n`;
const BODY: any = { p: 'alpha', list: ['beta alpha', 3, { q: 'only-body', z: null }], n: 1, t: true, alpha: 'key', e: '' };
const MDP = 'docs/defines/DEF-slug.md', JSP = `.insrc/artifacts/DEF-${EPIC}.json`;
const EDITS: any[] = [
	{ find: 'alpha', replace: 'ALPHA' }, { find: 'gamma', replace: "$& $1 $` a|b" }, { find: 'only-body', replace: '' }, { find: 'absent', replace: 'x' },
	{ find: 'alpha', replace: 'alpha alpha' }, { find: 'ALPHA beta', replace: 'Z' }, { find: '', replace: 'everywhere' }, { find: 'beta' }, null, { find: '.', replace: 'dot' },
];
const SEV = ['HIGH', 'MED', 'LOW', 'BOGUS', undefined], FIX = ['auto', 'assisted', 'manual', 'perhaps'];
type V = { severity?: any; fixability?: any; evidence?: any; action?: any; proposedFix?: any };
const vd = (severity: any, fixability: any, edits?: readonly any[], options?: readonly any[], rationale = 'why | so'): V => ({ severity, fixability, evidence: 'e1 | e2\nnext', action: 'do it', ...(edits || options ? { proposedFix: { rationale, ...(edits ? { artifactEdits: edits } : {}), ...(options ? { options } : {}) } } : {}) });
const claim = (id: any, x: any = {}): any => ({ id, kind: 'citation', text: `premise ${id}`, anchors: ['src/a.ts:1'], probe: {}, ...x });

// ---- the specification -------------------------------------------------------------------------------------------------------
const sevOf = (s: any): string => ['HIGH', 'MED', 'LOW'].includes(s) ? s : 'MED';
const fixOf = (s: any): string => ['auto', 'assisted', 'manual'].includes(s) ? s : 'manual';
const editsOf = (v: V): any[] => fixOf(v.fixability) === 'manual' ? [] : (v.proposedFix?.artifactEdits ?? []).filter((e: any) => typeof e?.find === 'string' && e.find !== '' && typeof e.replace === 'string');
const finding = (c: any, v: V): any => ({ ref: c.ref, kind: ['inventory', 'citation', 'closed-union', 'external-contract', 'cross-artifact', 'semantic', 'ordering'].includes(c.kind) ? c.kind : 'semantic', premise: c.text ?? '', severity: sevOf(v.severity), fixability: fixOf(v.fixability), evidence: v.evidence ?? '', action: v.action ?? '', edits: editsOf(v), options: (v.proposedFix?.options ?? []).filter((o: any) => typeof o === 'string' && o !== ''), why: v.proposedFix?.rationale ?? '' });
const readBack = (f: any): any => ({ ref: f.ref, kind: f.kind, premise: f.premise, severity: f.severity, fixability: f.fixability, evidence: f.evidence, action: f.action, edits: f.proposedFix?.artifactEdits ?? [], options: f.proposedFix?.options ?? [], why: f.proposedFix?.rationale ?? '' });
const deep = (b: any, f: (s: string) => string): any => typeof b === 'string' ? f(b) : Array.isArray(b) ? b.map(x => deep(x, f)) : b && typeof b === 'object' ? Object.fromEntries(Object.entries(b).map(([k, x]) => [k, deep(x, f)])) : b;
/** every literal occurrence, found by hand */
const swap = (s: string, a: string, b: string): string => { let o = '', i = 0; for (;;) { const j = s.indexOf(a, i); if (j < 0) return o + s.slice(i); o += s.slice(i, j) + b; i = j + a.length; } };
function fixed(md: string, body: any, fs: any[]): { md: string; body: any; applied: number[]; skipped: string[] } {
	const applied: number[] = [], skipped: string[] = [];
	fs.forEach((f, i) => {
		if (f.fixability !== 'auto') return;
		let n = 0;
		for (const e of f.edits) { const before = canon([md, body]); const has = md.includes(e.find) || (() => { let h = false; deep(body, s => { if (s.includes(e.find)) h = true; return s; }); return h; })(); if (!has) { skipped.push(e.find); continue; } void before; n++; md = swap(md, e.find, e.replace); body = deep(body, s => swap(s, e.find, e.replace)); }
		if (n) applied.push(i);
	});
	return { md, body, applied, skipped };
}
const verdictOf = (fs: any[], block: string[] = ['HIGH', 'MED']): string => fs.some(f => block.includes(f.severity)) ? 'block' : fs.some(f => f.severity !== 'LOW') ? 'warn' : 'pass';
const countsOf = (fs: any[]): any => ({ high: fs.filter(f => f.severity === 'HIGH').length, med: fs.filter(f => f.severity === 'MED').length, low: fs.filter(f => f.severity === 'LOW').length });
const cells = (row: string): string[] => { const out: string[] = ['']; for (let i = 0; i < row.length; i++) { if (row[i] === '\\') { out[out.length - 1] += row[++i] ?? ''; } else if (row[i] === '|') out.push(''); else out[out.length - 1] += row[i]; } return out.slice(1, -1).map(s => s.trim()); };
/** the review section, read as the table a human sees */
function tableOf(section: string): string[][] { return section.split('\n').filter(l => l.startsWith('|')).slice(2).map(cells); }
const one = (s: string): string => s.replace(/\n/g, ' ').trim();

main(async () => {
	const chk = new Check('C28', 'exploration');
	chk.rule = 'a case is non-trivial when an edit was applied, a finding blocks, or a failure or a change made meanwhile had to be survived';
	await chk.sharded(async mine => {
		const RV = await repo('src/workflow/review/index.ts'), H = await repo('src/mcp/review-step/handler.ts'), SS = await repo('src/mcp/review-step/state-store.ts'), ST = await repo('src/db/graph/store.ts'), LC = await repo('src/db/lance/conn.ts'), EN = await repo('src/db/entities.ts'), PR = await repo('src/workflow/review/probe.ts');
		ST.setGraphStorePath(join(SCRATCH, 'graph.lmdb')); LC.setLanceConnPath(join(SCRATCH, 'lance'));
		const w = new World(join(SCRATCH, 'w'));
		const md = join(w.root, MDP), js = join(w.root, JSP), SRC = { 'src/a.ts': 'line one\nline two\n', 'src/b.md': 'other text' };
		const META = { workflow: 'define', epicHash: EPIC, epicSlug: 'slug', runId: 'r1' };
		let job = 0; const turn = (): boolean => mine(job++);
		const bad = (k: string, what: string, ctx: unknown): void => chk.violation(k, what, { case: ctx });
		const put = (doc = DOC, meta: any = META, top: any = {}, name = 'DEF-slug', hash = EPIC): void => w.set({ ...SRC, [`docs/defines/${name}.md`]: doc, [`.insrc/artifacts/DEF-${hash}.json`]: JSON.stringify({ ...top, meta, body: BODY }, null, 2) + '\n' });
		const get = (): { md: string; j: any } => { const m = readFileSync(md, 'utf8'), j = JSON.parse(readFileSync(js, 'utf8')); w.last.set(MDP, '\0'); w.last.set(JSP, '\0'); return { md: m, j }; };
		const bare = (m: string): string => { const i = m.indexOf('\n' + MARK); return (i < 0 ? m : m.slice(0, i)).trimEnd(); };
		/** compare what is on disk and what was reported with the specification */
		function judge(key: string, ctx: any, got: { md: string; j: any }, s: { fs: any[]; md: string; body: any; meta: any; top: any; block?: string[]; model: string; at?: string }): any {
			const e = (k: string, what: string): void => bad(`${key}:${k}`, `${what} (${canon(ctx).slice(0, 600)})`, ctx);
			if (bare(got.md) !== s.md.trimEnd()) e('document', `the document reads ${JSON.stringify(bare(got.md))}, expected ${JSON.stringify(s.md.trimEnd())}`);
			if (got.md.split(MARK).length !== 2) e('sections', `the document carries ${got.md.split(MARK).length - 1} review sections`);
			if (canon(got.j.body) !== canon(s.body)) e('body', `the body is ${canon(got.j.body)}, expected ${canon(s.body)}`);
			const { review: r, ...meta } = got.j.meta, { reviewResolutions: _r, review: _o, ...want } = s.meta, { meta: _m, body: _b, ...top } = got.j;
			if (canon(meta) !== canon(want)) e('meta', `metadata ${canon(meta)}, expected ${canon(want)} beside the new review`);
			if (canon(top) !== canon(s.top)) e('top', `top-level fields ${canon(top)}, expected ${canon(s.top)}`);
			if (!r) { e('stamp', 'no review is recorded'); return; }
			if (canon(r.findings.map(readBack)) !== canon(s.fs)) e('findings', `recorded findings ${canon(r.findings.map(readBack))}, expected ${canon(s.fs)}`);
			if (new Set(r.findings.map((f: any) => f.claimId)).size !== s.fs.length) e('ids', `findings share an id: ${r.findings.map((f: any) => f.claimId)}`);
			if (r.verdict !== verdictOf(s.fs, s.block)) e('verdict', `verdict ${r.verdict}, expected ${verdictOf(s.fs, s.block)} for ${s.fs.map(f => f.severity)}`);
			if (canon(r.counts) !== canon(countsOf(s.fs))) e('counts', `counts ${canon(r.counts)}, expected ${canon(countsOf(s.fs))}`);
			if (r.stage !== s.meta.workflow || r.model !== s.model || (s.at ? r.reviewedAt !== s.at : !(Date.parse(r.reviewedAt) > 0))) e('header', `recorded as stage ${r.stage}, model ${r.model}, at ${r.reviewedAt}`);
			// the human-readable section lists exactly the recorded findings, worst first
			const sect = got.md.slice(got.md.indexOf(MARK)), rows = tableOf(sect), rank: any = { HIGH: 0, MED: 1, LOW: 2 };
			const wantRows = r.findings.map((f: any) => [f.ref ?? f.claimId, f.kind, f.severity, f.fixability, one(f.premise), one(f.evidence), one(f.action)]);
			if (canon([...rows].sort()) !== canon(wantRows.sort())) e('table', `the review section lists ${canon(rows)}, expected ${canon(wantRows)}`);
			if (rows.some((x, i) => i > 0 && rank[rows[i - 1]![2]!] > rank[x[2]!])) e('table-order', `the review section does not list the worst finding first: ${rows.map(x => x[2])}`);
			if (!sect.includes(r.verdict.toUpperCase()) || !sect.includes(`${r.counts.high} HIGH`) || !sect.includes(`${r.counts.med} MED`) || !sect.includes(`${r.counts.low} LOW`)) e('table-head', 'the review section does not state the verdict and the counts');
			for (const f of s.fs) for (const o of f.options) if (!sect.includes(one(o))) e('table-options', `option ${o} is not shown`);
			return r;
		}
		/** one scripted model: pass p answers claims[p] and then verdicts[p] one by one; `at` may interfere before any answer */
		const scripted = (claims: any[][], verdicts: V[][], seen: { prompts: string[]; n: number }, at?: (n: number) => void): any => {
			let pass = -1, k = 0;
			return { capabilities: { structuredOutput: true }, completeStructured: async (msgs: any[], schema: any) => {
				seen.prompts.push(msgs.map(m => m.content).join('\n')); at?.(seen.n++); await null;
				if ((schema.required ?? []).includes('claims')) { pass++; k = 0; return { claims: claims[Math.min(pass, claims.length - 1)] }; }
				return verdicts[Math.min(pass, verdicts.length - 1)]![k++];
			} };
		};
		const daemon = (provider: any, x: any = {}): Promise<any> => RV.reviewArtifactFile({ mdPath: md, jsonPath: js, repo: w.root, provider, model: 'm1', reviewedAt: T0, ...x });
		const step = async (input: any): Promise<any> => { const r = await H.handleReviewStep(input); const o = JSON.parse(r.content[0].text); if ((o.next === 'error') !== (r.isError === true)) bad('step:flag', `isError ${r.isError} on a ${o.next} answer`, input); return o; };
		async function client(claims: any[], verdicts: (ids: string[]) => any[]): Promise<any> {
			const a = await step({ phase: 'start', artifact: md, repo: w.root }); if (a.next !== 'emit_claims') return a;
			const b = await step({ phase: 'claims', claims: { claims }, state: a.state }); if (b.next !== 'emit_verdicts') return b;
			return await step({ phase: 'verdicts', verdicts: { verdicts: verdicts(b.evidence.map((x: any) => x.claimId)) }, state: b.state });
		}

		// ---- 1. every single verdict, on both surfaces
		const lists: any[][] = [[]]; for (const n of THOROUGH ? [1, 2, 3] : [1, 2]) for (const q of sequences(EDITS.length, n)) lists.push(q.map(i => EDITS[i]));
		for (const [sv, fx] of product<any>(SEV, FIX)) for (const es of lists) {
			if ((sv === undefined || sv === 'BOGUS') && es.length > 1 || es.length > 2 && sv !== 'HIGH' || !turn()) continue;
			const v = vd(sv, fx, es.length ? es : undefined, fx === 'auto' ? undefined : ['o1', '', 'o|2']), c = claim('c1', { ref: 's1' });
			const fs = [finding(c, v)], f = fixed(DOC, BODY, fs), ctx = { severity: sv, fixability: fx, edits: es };
			put(); const seen = { prompts: [] as string[], n: 0 };
			const r = await daemon(scripted([[c]], [[v]], seen), { reReview: false }); chk.evaluations++; if (f.applied.length || verdictOf(fs) === 'block') chk.nontrivial++;
			const rep = judge('daemon', ctx, get(), { fs, md: f.md, body: f.body, meta: META, top: {}, model: 'm1', at: T0 });
			if (canon(r.report) !== canon(rep)) bad('daemon:answer', `the returned review ${canon(r.report)} is not the recorded one ${canon(rep)}`, ctx);
			if (canon(r.skipped.map((x: any) => x.find)) !== canon(f.skipped) || r.applied.length !== f.applied.length || r.applied.some((x: any) => x.claimId !== 'c1' || x.edits.length !== fs[0].edits.length - f.skipped.length)) bad('daemon:applied', `reported applied ${canon(r.applied)} skipped ${canon(r.skipped)}, expected ${f.applied.length} and ${canon(f.skipped)} (${canon(ctx)})`, ctx);
			if (canon(r.pendingUser.map((x: any) => x.claimId)) !== canon(fs[0].fixability === 'auto' ? [] : ['c1'])) bad('daemon:pending', `pending ${canon(r.pendingUser)} (${canon(ctx)})`, ctx);
			if (seen.prompts.length !== 2 || !seen.prompts[0]!.includes(DOC.trim()) || !seen.prompts[1]!.includes('premise c1')) bad('daemon:prompts', `the model was asked ${seen.prompts.length} times, or not about this document and premise`, ctx);
			put(); const d = await client([c], ids => [{ claimId: ids[0], ...v }]); chk.evaluations++;
			if (d.next !== 'done') { bad('client:refused', `a complete review was refused: ${canon(d)} (${canon(ctx)})`, ctx); continue; }
			const rc = judge('client', ctx, get(), { fs, md: f.md, body: f.body, meta: META, top: {}, model: 'client' });
			if (d.verdict !== rc?.verdict || canon(d.counts) !== canon(rc?.counts) || d.applied !== f.applied.length || d.pending !== (fs[0].fixability === 'auto' ? 0 : 1) || d.path !== md || d.jsonPath !== js) bad('client:answer', `answered ${canon({ ...d, report: 0 })} (${canon(ctx)})`, ctx);
		}
		// ---- 2. several premises x earlier state of the artifact x a second pass over the amended document
		const VT: V[] = [vd('LOW', 'manual'), vd('HIGH', 'auto', [EDITS[0], EDITS[3]]), vd('MED', 'auto', [EDITS[5]]), vd('MED', 'assisted', [EDITS[0]], ['o1', 'o2']), vd('HIGH', 'manual', [EDITS[0]], ['m1']), vd('LOW', 'auto', [EDITS[2]]), vd('BOGUS', 'auto', [EDITS[4]])];
		const OLD = `${DOC.trimEnd()}\n\n${MARK}\n\n## Review\n\n| alpha | gamma |\n`;
		const STATES: [string, string, any, any][] = [['fresh', DOC, META, {}], ['reviewed', OLD, { ...META, review: { verdict: 'block', findings: [{ claimId: 'c1', severity: 'HIGH' }] }, reviewResolutions: { c1: { findingId: 'c1', status: 'resolved' } } }, {}], ['approved', DOC, { ...META, approvedAt: T0, approvedBy: 'me', custom: { deep: [1] } }, { schema: 3, tracker: { url: 'u' } }]];
		for (const n of THOROUGH ? [0, 2, 3] : [0, 2]) for (const q of sequences(VT.length, n)) for (const [sn, doc, meta, top] of STATES) for (const second of ['off', 'clean', 'again'] as const) {
			if (n === 3 && (second === 'again' || sn === 'approved') || !turn()) continue;
			const cs = q.map((_, i) => claim(`c${i + 1}`, i ? { ref: `s${i}` } : {})), vs = q.map(i => VT[i]!), fs = vs.map((v, i) => finding(cs[i], v));
			const clean = doc === OLD ? `${DOC.trimEnd()}\n` : DOC, f = fixed(clean, BODY, fs), ctx = { verdicts: q, state: sn, second };
			const c2 = [claim('n1'), claim('n2')], v2 = second === 'clean' ? [vd('LOW', 'manual'), vd('LOW', 'manual')] : [vd('HIGH', 'auto', [{ find: 'ALPHA', replace: 'omega' }]), vd('LOW', 'assisted', undefined, ['z'])];
			const again = second !== 'off' && f.applied.length > 0, rfs = again ? v2.map((v, i) => finding(c2[i], v)) : fs;
			for (const block of n === 2 ? [undefined, ['HIGH']] : [undefined]) {
				put(doc, meta, top); const seen = { prompts: [] as string[], n: 0 };
				const r = await daemon(scripted([cs, c2], [vs, v2], seen), { ...(second === 'off' ? { reReview: false } : {}), ...(block ? { blockOn: block } : {}) }); chk.evaluations++; chk.nontrivial++;
				judge('daemon', ctx, get(), { fs: rfs, md: f.md, body: f.body, meta, top, model: 'm1', at: T0, ...(block ? { block } : {}) });
				if (seen.prompts.length !== 1 + n + (again ? 3 : 0)) bad('daemon:calls', `the model was asked ${seen.prompts.length} times (${canon(ctx)})`, ctx);
				if (again && !seen.prompts[1 + n]!.includes(f.md.trim())) bad('daemon:reread', `the second pass did not judge the amended document (${canon(ctx)})`, ctx);
				if (seen.prompts[0]!.includes(MARK)) bad('daemon:prompt-section', 'an earlier review section is judged as part of the document', ctx);
				const pend = (x: any[]): string[] => x.flatMap((y, i) => y.fixability === 'auto' ? [] : [(again ? c2 : cs)[i].id]);
				if (canon(r.pendingUser.map((x: any) => x.claimId).sort()) !== canon(pend(rfs).sort()) || r.pendingUser.some((x: any, i: number) => i > 0 && x.fixability === 'assisted' && r.pendingUser[i - 1].fixability === 'manual')) bad('daemon:pending', `pending ${canon(r.pendingUser.map((x: any) => [x.claimId, x.fixability]))} (${canon(ctx)})`, ctx);
			}
			if (second !== 'off') continue;
			// the client judges in any order, forgets premises, and names ones that do not exist
			for (const say of ['in order', 'reversed', 'first missing', 'unknown too', 'none'] as const) {
				const idx = say === 'reversed' ? vs.map((_, i) => i).reverse() : say === 'first missing' ? vs.map((_, i) => i).slice(1) : say === 'none' ? [] : vs.map((_, i) => i);
				put(doc, meta, top); const d = await client(cs, ids => [...(say === 'unknown too' ? [{ claimId: 'nobody', ...vd('HIGH', 'auto', [{ find: 'beta', replace: 'HACK' }]) }, null, { severity: 'HIGH' }] : []), ...idx.map(i => ({ claimId: ids[i], ...vs[i] }))].filter(x => x !== null)); chk.evaluations++;
				const c = { ...ctx, say }; if (d.next !== 'done') { bad('client:refused', `refused ${canon(d)} (${canon(c)})`, c); continue; }
				const got = get(), r = got.j.meta.review;
				// premises nobody judged are there as open MED findings without edits
				const unj = cs.filter((_, i) => !idx.includes(i)), byP = new Map((r?.findings ?? []).map((x: any) => [x.premise, x]));
				for (const u of unj) { const x: any = byP.get(u.text); if (!x || x.severity !== 'MED' || (x.proposedFix?.artifactEdits ?? []).length || x.fixability === 'auto') bad('client:unjudged', `premise ${u.id}, which was not judged, is recorded as ${canon(x)} (${canon(c)})`, c); }
				const done = idx.map(i => fs[i]), fx = fixed(clean, BODY, done), all = [...done, ...unj.map(u => readBack(byP.get(u.text) ?? {}))];
				const order = (x: any[]): any[] => [...x].sort((a, b) => String(a.premise) < String(b.premise) ? -1 : 1);
				if (r) { const fl = r.findings; got.j.meta.review = { ...r, findings: order(fl) }; }
				judge('client', c, got, { fs: order(all), md: fx.md, body: fx.body, meta, top, model: 'client' });
				if (d.applied !== fx.applied.length || d.pending !== all.filter(x => x.fixability !== 'auto').length || d.verdict !== verdictOf(all) || canon(d.counts) !== canon(countsOf(all))) bad('client:answer', `answered ${canon({ ...d, report: 0 })} (${canon(c)})`, c);
			}
		}
		// ---- 3. premises as the model words them: repeated, empty and colliding ids, missing parts
		const CT = [claim('c1'), claim('c1', { text: 'second c1' }), claim('c2'), claim('', { text: 'no id' }), claim('c1-2', { text: 'suffix' }), claim('k', { kind: 'rumour', ref: '' }), { id: 'm', text: 'bare' }, claim('c3', { probe: { greps: ['', 'line'], reads: ['src/a.ts:2', ''] } })];
		for (const n of [1, 2, 3]) for (const q of sequences(CT.length, n)) {
			if (!turn()) continue;
			const cs = q.map((i, k) => ({ ...CT[i], text: `${CT[i].text} @${k}` })), vs = q.map((_, k) => vd(k === 0 ? 'HIGH' : k === 1 ? 'LOW' : 'MED', 'manual', undefined, [`o${k}`])), fs = cs.map((c, k) => finding({ ...c, ref: c.ref || undefined }, vs[k]!)), ctx = { claims: cs.map(c => c.id) };
			put(); const seen = { prompts: [] as string[], n: 0 };
			await daemon(scripted([cs], [vs], seen)); chk.evaluations++; judge('daemon-claims', ctx, get(), { fs, md: DOC, body: BODY, meta: META, top: {}, model: 'm1', at: T0 });
			cs.forEach((c, k) => { if (!seen.prompts[k + 1]?.includes(c.text)) bad('daemon-claims:prompt', `premise ${k} was judged on another premise's text`, ctx); });
			put(); const d = await client(cs, ids => ids.map((id, k) => ({ claimId: id, ...vs[k] }))); chk.evaluations++;
			if (d.next !== 'done') { bad('client-claims:refused', canon(d), ctx); continue; }
			judge('client-claims', ctx, get(), { fs, md: DOC, body: BODY, meta: META, top: {}, model: 'client' });
		}
		// ---- 4. whatever happens while the model is thinking, nothing is lost
		const IF = ['reject', 'abort', 'approve', 'edit document', 'edit body', 'both and approve', 'garbage'] as const;
		for (const q of sequences(VT.length, 2)) for (let k = 0; k < (fixed(DOC, BODY, q.map((i, j) => finding(claim(`c${j}`), VT[i]!))).applied.length ? 6 : 3); k++) for (const what of IF) {
			if (!turn()) continue;
			const cs = [claim('c1'), claim('c2')], vs = q.map(i => VT[i]!), c2 = [claim('n1'), claim('n2')], v2 = [vd('LOW', 'manual'), vd('MED', 'manual')], fs = vs.map((v, i) => finding(cs[i], v)), f = fixed(DOC, BODY, fs), rfs = f.applied.length ? v2.map((v, i) => finding(c2[i], v)) : fs, ctx = { verdicts: q, call: k, what };
			put(); const ac = new AbortController(); let doc = DOC, body = BODY, meta: any = META;
			const write = (): void => { writeFileSync(md, doc); writeFileSync(js, JSON.stringify({ meta, body })); };
			const p = scripted([cs, c2], [vs, v2], { prompts: [], n: 0 }, n => { if (n !== k) return; if (what === 'reject') throw new Error('model down'); if (what === 'abort') ac.abort(); if (what === 'approve' || what === 'both and approve') meta = { ...META, approvedAt: T0, note: 'keep' }; if (what === 'edit document' || what === 'both and approve') doc = DOC.replace('beta', 'BETA'); if (what === 'edit body' || what === 'both and approve') body = { ...BODY, p: 'edited' }; if (what === 'garbage') throw Object.assign(new Error('bad json'), { name: 'SyntaxError' }); if (what !== 'reject' && what !== 'abort') write(); });
			let err: any; let res: any; try { res = await daemon(p, { signal: ac.signal }); } catch (e) { err = e; } chk.evaluations++; chk.nontrivial++;
			const got = get();
			const untouched = got.md === doc && canon(got.j) === canon({ meta, body });
			if (err !== undefined) { if (!untouched) bad(`meanwhile:${what}`, `a review that failed (${err.message}) changed the artifact (${canon(ctx)})`, ctx); if (what === 'approve') bad('meanwhile:approve', `approving the artifact while it is reviewed makes the review fail: ${err.message}`, ctx); continue; }
			if (what === 'reject' || what === 'garbage' || what === 'edit document' || what === 'edit body' || what === 'both and approve') { bad(`meanwhile:${what}`, `the review succeeded (${res?.report?.verdict}) although ${what} happened at call ${k} (${canon(ctx)})`, ctx); continue; }
			judge(`meanwhile:${what}`, ctx, got, { fs: rfs, md: f.md, body: f.body, meta, top: {}, model: 'm1', at: T0 });
		}
		// ---- 5. every file operation fails or is the last one before a crash; then the review is repeated
		for (const q of [[1, 5], [0, 0], [3, 1]]) for (const mode of ['error', 'before', 'torn'] as const) for (let at = 0; at < 12; at++) {
			if (!turn()) continue;
			const cs = [claim('c1'), claim('c2')], vs = q.map(i => VT[i]!), fs = vs.map((v, i) => finding(cs[i], v)), f = fixed(DOC, BODY, fs), ctx = { verdicts: q, mode, at };
			const SM = { ...META, approvedAt: T0 }; put(DOC, SM); const before = { md: readFileSync(md, 'utf8'), j: canon(JSON.parse(readFileSync(js, 'utf8'))) };
			const fr = await withFault(w.root, at, mode, async () => daemon(scripted([cs], [vs], { prompts: [], n: 0 }), { reReview: false })) as any; chk.evaluations++;
			let got: any; try { got = get(); } catch (e) { bad(`fault:${mode}`, `after ${mode} at file operation ${at} the artifact no longer reads: ${(e as Error).message}`, ctx); continue; }
			const mOld = got.md === before.md, jOld = canon(got.j) === before.j, mNew = bare(got.md) === f.md.trimEnd() && got.md.includes(MARK), jNew = canon(got.j.body) === canon(f.body) && got.j.meta.review?.verdict === verdictOf(fs);
			if (!(mOld || mNew) || !(jOld || jNew)) bad(`fault:${mode}`, `after ${mode} at file operation ${at} the artifact is neither the old nor the new one: ${got.md} ${canon(got.j)}`, ctx);
			if (got.j.meta.approvedAt !== T0) bad(`fault:${mode}:meta`, `after ${mode} at file operation ${at} the approval is gone`, ctx);
			if (fr.value !== undefined && fr.fired && !(mNew && jNew)) bad(`fault:${mode}:silent`, `the review reports success although its result was not written (operation ${at})`, ctx);
			await daemon(scripted([cs], [vs], { prompts: [], n: 0 }), { reReview: false });
			const g2 = get(); if (bare(g2.md) !== f.md.trimEnd() || canon(g2.j.body) !== canon(f.body) || g2.md.split(MARK).length !== 2) bad(`fault:${mode}:repeat`, `repeating the review after ${mode} at operation ${at} gives ${g2.md}`, ctx);
			chk.nontrivial++;
		}
		// ---- 6. the client's turns, in any order, over two conversations about one or two artifacts
		const E2 = 'fedcba9876543210', MD2 = 'docs/defines/DEF-two.md', J2 = `.insrc/artifacts/DEF-${E2}.json`;
		const DOC2 = `<!-- insrc:artifact DEF-${E2} -->\nalpha second\n`;
		const OPS = ['SA', 'SB', 'CA', 'Ca', 'CB', 'VA', 'VB', 'XA', 'PA'] as const; // start, claims (two sets), verdicts; edit, approve artifact A
		const L = THOROUGH ? 6 : 5;
		for (const same of [true, false]) for (const q of sequences(OPS.length, L)) {
			const o = q.map(i => OPS[i]!); if (!o.includes('SA') || o.indexOf('SA') > 2 || o.filter(x => x === 'XA').length > 1 || o.filter(x => x === 'PA').length > 1 || !o.some(x => x[0] === 'V') || !same && !o.some(x => x.endsWith('B')) || !turn()) continue;
			w.set({ ...SRC, [MDP]: DOC, [JSP]: JSON.stringify({ meta: META, body: BODY }), [MD2]: DOC2, [J2]: JSON.stringify({ meta: { ...META, epicHash: E2 }, body: { p: 'alpha' } }) }); SS._clearReviewStateStoreForTests();
			const art: any = { A: { md: DOC, body: BODY, meta: { ...META }, rev: undefined }, 2: { md: DOC2, body: { p: 'alpha' }, meta: { ...META, epicHash: E2 }, rev: undefined } };
			const conv: any = {}; const of = (c: string): any => same || c === 'A' ? art.A : art[2], path = (c: string): string => same || c === 'A' ? md : join(w.root, MD2);
			const fail = (what: string): void => bad(`turns:${o.join('')}:${same}`, `${what} (turns ${o.join(' ')}, ${same ? 'one artifact' : 'two artifacts'})`, { turns: o, same });
			for (const op of o) {
				chk.evaluations++;
				const c = op[1]!.toUpperCase(), a = of(c), v = conv[c];
				if (op === 'XA') { art.A.md = art.A.md.replace('delta', 'DELTA'); const cur = readFileSync(md, 'utf8'); writeFileSync(md, cur.replace('delta', 'DELTA')); continue; }
				if (op === 'PA') { art.A.meta.approvedAt = T0; const cur = JSON.parse(readFileSync(js, 'utf8')); cur.meta.approvedAt = T0; writeFileSync(js, JSON.stringify(cur)); continue; }
				if (op[0] === 'S') { const r = await step({ phase: 'start', artifact: path(c), repo: w.root }); if (r.next !== 'emit_claims' || r.stage !== 'define' || !r.prompt.user.includes(a.md.trim())) { fail(`${op} answered ${canon(r).slice(0, 300)}`); return; } if (Object.values(conv).some((x: any) => x.token === r.state)) fail(`${op} reuses a token`); conv[c] = { token: r.state, md: a.md, claims: undefined }; continue; }
				const token = v?.token ?? 'no-such-token';
				if (op[0] === 'C') {
					const cs = op === 'Ca' ? [claim('x1', { probe: { reads: ['src/a.ts:1'] } })] : [claim('c1'), claim('c2')];
					const r = await step({ phase: 'claims', claims: { claims: cs }, state: token });
					if (!v || v.done) { if (r.next !== 'error') fail(`${op} on ${v ? 'a finished' : 'no'} conversation answered ${r.next}`); continue; }
					if (r.next !== 'emit_verdicts' || r.state !== token || canon(r.evidence.map((x: any) => x.claimId)) !== canon(cs.map(x => x.id))) { fail(`${op} answered ${canon(r).slice(0, 300)}`); return; }
					v.claims = cs; continue;
				}
				const r = await step({ phase: 'verdicts', verdicts: { verdicts: [{ claimId: 'c1', ...VT[c === 'A' ? 1 : 3]! }, { claimId: 'c2', ...VT[0]! }, { claimId: 'x1', ...VT[0]! }] }, state: token });
				const ok = v && !v.done && v.claims && v.md === a.md;
				if (!ok) { if (r.next !== 'error') fail(`${op} answered ${r.next}, but there is ${!v ? 'no conversation' : v.done ? 'only a finished conversation' : !v.claims ? 'no premise yet' : 'a changed document'}`); }
				else {
					if (r.next !== 'done') { fail(`${op} was refused: ${canon(r)}`); return; }
					const fs = v.claims.map((x: any) => finding(x, x.id === 'c1' ? VT[c === 'A' ? 1 : 3]! : VT[0]!)), f = fixed(a.md, a.body, fs);
					a.md = f.md; a.body = f.body; a.rev = fs; v.done = true; chk.nontrivial++;
				}
				for (const [x, mp, jp] of [[art.A, MDP, JSP], [art[2], MD2, J2]] as const) {
					const m = readFileSync(join(w.root, mp), 'utf8'), j = JSON.parse(readFileSync(join(w.root, jp), 'utf8'));
					if (bare(m) !== x.md.trimEnd() || m.includes(MARK) !== !!x.rev || canon(j.body) !== canon(x.body) || canon(j.meta.review?.findings.map(readBack)) !== canon(x.rev) || j.meta.approvedAt !== x.meta.approvedAt) { fail(`after ${op} ${mp} holds ${JSON.stringify(m).slice(0, 200)} with ${canon(j).slice(0, 300)}`); return; }
				}
			}
			for (const p of [MDP, JSP, MD2, J2]) w.last.set(p, '\0');
		}
		for (const x of [null, 7, {}, { phase: 'nonsense' }, { phase: 'start' }, { phase: 'start', artifact: '', repo: w.root }, { phase: 'start', artifact: join(w.root, 'docs/defines/DEF-none.md'), repo: w.root }, { phase: 'claims', claims: { claims: [] } }, { phase: 'verdicts', verdicts: { verdicts: [] }, state: '' }]) { process.env['INSRC_REPO'] = w.root; const r = await step(x).catch(e => e); chk.evaluations++; if (r?.next !== 'error') bad('turns:malformed', `${canon(x)} was answered ${canon(r)}`, x); }

		// ---- 7. the evidence handed to the judge is what the source tree says
		const root = join(SCRATCH, 'ev');
		const trees: { files: Record<string, string>; indexed: string[] }[] = [
			{ files: { 'src/a.ts': 'foo one\nbar\nfoo two', 'lib/b.py': 'foo three\n', 'README.md': 'foo four\n' }, indexed: [] },
			{ files: { 'src/a.ts': 'foo one\nbar\nfoo two', 'lib/b.py': 'foo three\n', 'README.md': 'foo four\n' }, indexed: ['src/a.ts', 'lib/b.py'] },
			{ files: { 'src/a.ts': 'foo one\nbar\nfoo two', 'lib/b.py': 'foo three\n', 'README.md': 'foo four\n' }, indexed: ['src/a.ts'] },
			{ files: { 'src/a.ts': 'foo one\nbar\nfoo two', 'main.ts': 'foo five', 'lib/b.py': 'foo three\n' }, indexed: ['src/a.ts', 'main.ts'] },
			{ files: { 'src/a.ts': 'foo one\n', 'gone/x.ts': '' }, indexed: ['src/a.ts', 'stale/x.ts'] },
			...[49, 50, 51, 130].map(k => ({ files: { 'src/a.ts': Array.from({ length: k }, (_, i) => `foo ${i}`).join('\n'), 'lib/b.py': 'bar\n' }, indexed: ['src/a.ts', 'lib/b.py'] })),
		];
		const PAT = ['foo', 'fo+ t', 'bar', 'nothing', '[', 'a\\.ts', 'src/a.ts', 'x|foo one'];
		const ANC = ['src/a.ts:1', 'src/a.ts:3', 'src/a.ts:3:7', 'src/a.ts:0', 'src/a.ts:99', 'src/a.ts', 'none.ts:1', '../secret.txt:1', 'src/../../secret.txt:1', `${root}/src/a.ts:2`, `${join(SCRATCH, 'secret.txt')}:1`, 'lib/b.py:1', `${root}x/e.ts:1`];
		for (const [ti, t] of trees.entries()) {
			if (!turn()) continue;
			rmSync(root, { recursive: true, force: true }); mkdirSync(`${root}x`, { recursive: true }); writeFileSync(`${root}x/e.ts`, 'outside\n'); writeFileSync(join(SCRATCH, 'secret.txt'), 'secret\n');
			for (const [f, c] of Object.entries(t.files)) { mkdirSync(join(root, f, '..'), { recursive: true }); writeFileSync(join(root, f), c); }
			await EN.deleteEntitiesForRepo(null, root); if (t.indexed.length) { const R = await repo('src/db/repos.ts'); await R.addRepo(null, { path: root, name: 'ev', addedAt: T0, status: 'ready' }).catch(() => {}); await EN.upsertEntities(null, t.indexed.map((f, i) => ({ id: `f${i}`, kind: 'file', name: f, language: 'typescript', repo: root, file: join(root, f), startLine: 1, endLine: 1, body: '', embedding: [], indexedAt: T0 }))); }
			const segs = new Set(t.indexed.map(f => f.includes('/') ? f.split('/')[0]! : '')), within = (f: string): boolean => segs.size === 0 || segs.has('') || segs.has(f.split('/')[0]!);
			const claims = PAT.map((p, i) => claim(`g${i}`, { probe: { greps: [p], reads: [] } })).concat(ANC.map((a, i) => claim(`r${i}`, { probe: { reads: [a] } })), [claim('none'), claim('both', { probe: { greps: ['foo', 'bar'], reads: ['src/a.ts:1', 'none.ts:1'] } })]);
			const ev = await PR.gatherEvidence(RV.normalizeClaimsEnvelope({ claims }), root); chk.evaluations += claims.length;
			if (canon(ev.map((e: any) => e.claimId)) !== canon(claims.map(c => c.id))) { bad('evidence:claims', `evidence for ${ev.map((e: any) => e.claimId)}`, t); continue; }
			for (const [i, e] of ev.entries()) {
				const c = claims[i]; const ctx = { tree: ti, claim: c.probe };
				if (e.grepResults.length !== (c.probe.greps ?? []).length || e.reads.length !== (c.probe.reads ?? []).length) { bad('evidence:shape', `${canon(c.probe)} yields ${canon(e)}`, ctx); continue; }
				for (const [k, g] of e.grepResults.entries()) {
					let re: RegExp | undefined; try { re = new RegExp(c.probe.greps[k]); } catch { /* no truth for a broken pattern */ }
					const truth = re ? Object.entries(t.files).filter(([f]) => within(f)).flatMap(([f, x]) => x.split('\n').flatMap((l, n) => re!.test(l) ? [`${f}:${n + 1}:${l}`] : [])) : [];
					const hits = g.matches.filter((m: string) => !m.startsWith('FILE EXISTS')), names = g.matches.filter((m: string) => m.startsWith('FILE EXISTS')).map((m: string) => /FILE EXISTS: (\S+)/.exec(m)![1]);
					if (hits.some((m: string) => !truth.includes(m)) || new Set(hits).size !== hits.length || hits.length !== Math.min(50, truth.length)) bad('evidence:grep', `searching ${c.probe.greps[k]} finds ${hits.length} ${canon(hits).slice(0, 300)}, the tree has ${truth.length} ${canon(truth).slice(0, 300)}`, ctx);
					if (g.truncated !== true && truth.length > 50) bad('evidence:truncated', `${truth.length} matches are cut to ${hits.length} without saying so`, ctx);
					if (g.truncated === true && truth.length < 50) bad('evidence:truncated', `${truth.length} matches are said to be cut`, ctx);
					for (const n of names) if (!(n! in t.files)) bad('evidence:exists', `file ${n} is said to exist`, ctx);
					if ((c.probe.greps[k] === 'a\\.ts' || c.probe.greps[k] === 'src/a.ts') && within('src/a.ts') && !names.includes('src/a.ts')) bad('evidence:exists', `src/a.ts exists, but a search for ${c.probe.greps[k]} does not say so`, ctx);
				}
				for (const [k, r] of e.reads.entries()) {
					const m = /^(.*?):(\d+)(:\d+)?$/.exec(c.probe.reads[k]); const f = m ? (m[1]!.startsWith(root + '/') ? m[1]!.slice(root.length + 1) : m[1]!) : '', lines = t.files[f]?.split('\n'), n = Number(m?.[2]);
					const want = m && lines && n >= 1 && n <= lines.length ? lines[n - 1] : undefined;
					if (lines && n === lines.length && want === '') continue; // the empty line after a final newline
					if (r.found !== (want !== undefined) || (want !== undefined && r.line !== want)) bad('evidence:read', `reading ${c.probe.reads[k]} gives ${canon(r)}, the file says ${canon(want)}`, ctx);
				}
				// and the judge is shown all of it
				const text: string = RV.buildVerifyPrompt({ ...c, probe: c.probe }, e).user;
				if (!text.includes(c.text) || e.grepResults.some((g: any) => g.matches.some((x: string) => !text.includes(x)) || !text.includes(`${g.matches.length} match`)) || e.reads.some((r: any) => !text.includes(r.anchor) || r.found && !text.includes(r.line))) bad('evidence:shown', `the judge is not shown all evidence for ${canon(c.probe)}`, ctx);
			}
		}
		chk.sample({ edits: EDITS.length, verdicts: VT.length });
	});
	chk.assumptions.push('the model is a scripted provider; its prompts are checked for carrying the document, the premise and the evidence');
	chk.finish();
});
