// C07: conversation store — sessions and turns read back exactly as the history of operations says, in every reader, with no cross-session or cross-repo leak.
import { Check, main, THOROUGH, canon, SHARD, repo } from '../lib/mc.mts';
import { explore, isWorker, serveWorker, type Domain, type Succ } from '../lib/explore.mts';
import { openCtx, dump, restore, type Ctx, type Dump } from '../lib/store.mts';
import { Sched, runSchedule, allSchedules } from '../lib/sched.mts';
import { clock, installClock, DAY } from '../lib/vtime.mts';

interface SS { id: string; repo: string; summary: string; seen: string[]; c: number; x: number; agent: string; cat: string; st: string; a: number; v: number[] | null | '?' }
interface TT { s: string; i: number; repo: string; u: string; a: string; type: string; tier: string; fmt: string; c: number; comp: number; src: string[]; ents: string[]; refs: string[] | null; v: number[] | null | '?' }
interface M { ss: SS[]; ts: TT[]; t: number }
interface Node { d: Dump; m: M; clock: number }
const A = '/ra', B = "/ra/b'q"; const SID = ['s', 's:1', "s'"];
const V1 = [1, 0, 0, 0], V2 = [0, 1, 0, 0];
const iso = (n: number): string => (n === 0 ? '' : new Date(n).toISOString());
let ctx: Ctx, C: any;
interface Op { name: string; on?: (m: M) => boolean; run: () => Promise<any>; spec: (m: M) => any }
const OPS: Op[] = [];
const S = (m: M, id: string): SS | undefined => m.ss.find(s => s.id === id);
const repoOf: Record<string, string> = { s: A, 's:1': A, "s'": B };
function putS(m: M, id: string, f: (cur: SS | undefined) => SS): void { const cur = S(m, id); const n = f(cur); if (cur) Object.assign(cur, n); else m.ss.push(n); }
const fresh = (m: M, id: string): SS => ({ id, repo: repoOf[id]!, summary: '', seen: [], c: m.t, x: m.t + 30 * DAY, agent: 'chat', cat: '', st: 'active', a: m.t, v: null });
for (const id of SID) {
	const r = repoOf[id]!;
	OPS.push({ name: `saveSession ${id}`, run: () => C.saveSession(null, { id, repo: r, summary: 'one' }), spec: m => putS(m, id, c => ({ ...(c ?? fresh(m, id)), summary: 'one', a: m.t })) });
	OPS.push({ name: `saveSession ${id} full`, run: () => C.saveSession(null, { id, repo: r, summary: 'two', agent: 'pair', category: 'impl', status: 'completed' }, V1), spec: m => putS(m, id, c => ({ ...(c ?? fresh(m, id)), summary: 'two', agent: 'pair', cat: 'impl', st: 'completed', a: m.t, v: V1 })) });
	OPS.push({ name: `closeSession ${id}`, run: () => C.closeSession(null, { id, repo: r, summary: 'end', seenEntities: ['e1', 'e2'] }, V2), spec: m => putS(m, id, c => ({ ...(c ?? fresh(m, id)), summary: 'end', seen: ['e1', 'e2'], x: m.t + 30 * DAY, st: 'completed', a: m.t, v: V2 })) });
	OPS.push({ name: `setSessionAgent ${id}`, on: m => id === 's' || !!S(m, id), run: () => C.setSessionAgent(null, id, 'designer', 'c2'), spec: m => { const s = S(m, id); if (s) { s.agent = 'designer'; s.cat = 'c2'; s.a = m.t; } } });
	for (const st of id === 's' ? ['active', 'paused', 'completed', 'discarded'] : ['discarded']) OPS.push({ name: `setSessionStatus ${id} ${st}`, on: m => id === 's' || !!S(m, id), run: () => C.setSessionStatus(null, id, st), spec: m => { const s = S(m, id); if (s) { s.st = st; s.a = m.t; } } });
	OPS.push({ name: `bump ${id}`, on: m => !!S(m, id), run: () => C.bumpSessionActivity(null, id), spec: m => { const s = S(m, id); if (s) s.a = m.t; } });
	OPS.push({ name: `deleteSession ${id}`, run: () => C.deleteSession(null, id), spec: m => { const r2 = { sessionRows: S(m, id) ? 1 : 0, turnRows: m.ts.filter(t => t.s === id).length }; m.ss = m.ss.filter(s => s.id !== id); m.ts = m.ts.filter(t => t.s !== id); return r2; } });
	OPS.push({ name: `deleteSessionRecord ${id}`, on: m => !!S(m, id), run: () => C.deleteSessionRecord(null, id), spec: m => { m.ss = m.ss.filter(s => s.id !== id); } });
	OPS.push({ name: `deleteTurnsForSession ${id}`, on: m => m.ts.some(t => t.s === id) || id === 's', run: () => C.deleteTurnsForSession(null, id), spec: m => { m.ts = m.ts.filter(t => t.s !== id); } });
	const putT = (m: M, t: TT): void => { m.ts = m.ts.filter(x => x.s !== t.s || x.i !== t.i); m.ts.push(t); };
	const turn = (i: number, v: number[], over: Partial<TT> = {}): void => {
		OPS.push({ name: `saveTurn ${id}#${i}${over.repo ? ' other repo' : ''}${over.type ? ' ' + over.type : ''}`, on: m => m.ts.length < 5, run: () => C.saveTurn(null, { sessionId: id, idx: i, user: `u${i}`, assistant: 'as', entities: ['e'], vector: v, repo: over.repo ?? r, ...(over.type ? { type: over.type, tier: 'cold', compactedAt: iso(Date.UTC(2026, 0, 1)), createdAt: iso(Date.UTC(2025, 11, 1)), sourceIds: ['x:1'], format: 'markdown', assertionRefs: ['r1'] } : {}) }),
			spec: m => { putT(m, { s: id, i, repo: over.repo ?? r, u: `u${i}`, a: 'as', type: over.type ?? 'turn', tier: over.type ? 'cold' : 'hot', fmt: over.type ? 'markdown' : 'text', c: over.type ? Date.UTC(2025, 11, 1) : m.t, comp: over.type ? Date.UTC(2026, 0, 1) : 0, src: over.type ? ['x:1'] : [], ents: ['e'], refs: over.type ? ['r1'] : null, v }); const s = S(m, id); if (s) s.a = m.t; } });
	};
	turn(0, V1); turn(1, V2); if (id === 's') { turn(256, V1); turn(0, V2, { repo: B }); turn(1, V1, { type: 'summary' }); turn(1, V1, { type: 'merged' }); }
	if (id === 's') {
		OPS.push({ name: 'addCompactedTurns s#0,s:1#2', run: () => C.addCompactedTurns(null, [{ sessionId: 's', idx: 0, user: 'm', assistant: 'ma', entities: [], vector: V2, repo: A, type: 'directive', tier: 'hot', sourceIds: ['s:0'] }, { sessionId: 's:1', idx: 2, user: 'm2', assistant: '', entities: ['z'], vector: V1, repo: A }]), spec: m => { putT(m, { s: 's', i: 0, repo: A, u: 'm', a: 'ma', type: 'directive', tier: 'hot', fmt: 'text', c: m.t, comp: m.t, src: ['s:0'], ents: [], refs: null, v: V2 }); putT(m, { s: 's:1', i: 2, repo: A, u: 'm2', a: '', type: 'merged', tier: 'cold', fmt: 'text', c: m.t, comp: m.t, src: [], ents: ['z'], refs: null, v: V1 }); } });
		OPS.push({ name: 'deleteTurnsByIds s:0,s:1:1,bogus', run: () => C.deleteTurnsByIds(null, ['s:0', 's:1:1', 'bogus', 's:77']), spec: m => { m.ts = m.ts.filter(t => !((t.s === 's' && t.i === 0) || (t.s === 's:1' && t.i === 1))); } });
	}
}
for (const r of [A, B]) {
	OPS.push({ name: `deleteSessionsForRepo ${r}`, run: () => C.deleteSessionsForRepo(null, r), spec: m => { const ids = m.ss.filter(s => s.repo === r).map(s => s.id); if (!ids.length) return; m.ss = m.ss.filter(s => s.repo !== r); m.ts = m.ts.filter(t => !ids.includes(t.s)); for (const t of m.ts) if (t.repo === r) t.v = '?'; } });
	OPS.push({ name: `deleteTurnsForRepo ${r}`, run: () => C.deleteTurnsForRepo(null, r), spec: m => { m.ts = m.ts.filter(t => t.repo !== r); } });
}
const pruneSpec = (m: M): any => {
	const exp = m.ss.filter(s => s.x > 0 && s.x < m.t); let rest = m.ss.filter(s => !exp.includes(s)); const cap: SS[] = [];
	for (const r of new Set(rest.map(s => s.repo))) cap.push(...rest.filter(s => s.repo === r).sort((a, b) => b.c - a.c).slice(20));
	rest = rest.filter(s => !cap.includes(s)); m.ss = rest; return { expired: exp.length, capped: cap.length };
};
OPS.push({ name: 'prune', run: () => C.pruneConversations(null), spec: pruneSpec });
OPS.push({ name: 'wait 20 days', run: async () => {}, spec: m => { m.t += 20 * DAY; clock.now = m.t; } });

const ps = (s: any): any => ({ id: s.id, repo: s.repo, summary: s.summary, seen: s.seenEntities, c: s.createdAt, x: s.expiresAt, agent: s.agent, cat: s.category, st: s.status, a: s.lastActivityAt });
const pt = (t: any): any => ({ s: t.sessionId, i: t.idx, repo: t.repo, u: t.user, a: t.assistant, type: t.type, tier: t.tier, fmt: t.format, c: t.createdAt, comp: t.compactedAt, src: t.sourceIds, ents: t.entities, refs: t.assertionRefs ?? null });
const ms = (s: SS): any => ({ id: s.id, repo: s.repo, summary: s.summary, seen: s.seen, c: iso(s.c), x: iso(s.x), agent: s.agent, cat: s.cat, st: s.st, a: iso(s.a) });
const mt = (t: TT): any => ({ s: t.s, i: t.i, repo: t.repo, u: t.u, a: t.a, type: t.type, tier: t.tier, fmt: t.fmt, c: iso(t.c), comp: iso(t.comp), src: t.src, ents: t.ents, refs: t.refs });
const srt = (x: any[]): any[] => [...x].sort((a, b) => (canon(a) < canon(b) ? -1 : 1));
/** all readers against the model; returns the first disagreement */
async function differs(m: M): Promise<string | null> {
	const eq = (what: string, got: any, want: any): string | null => (canon(got) === canon(want) ? null : `${what} gives ${canon(got)} but should give ${canon(want)}`);
	let e: string | null;
	for (const id of [...new Set([...SID, ...m.ss.slice(0, 3).map(s => s.id)])]) {
		const s = S(m, id); const g = await C.getSessionById(null, id);
		if ((e = eq(`getSessionById(${id})`, g === null ? null : ps(g), s ? ms(s) : null))) return e;
		if ((e = eq(`getTurnsForSession(${id})`, (await C.getTurnsForSession(null, id)).map(pt), m.ts.filter(t => t.s === id && t.type === 'turn').sort((a, b) => a.i - b.i).map(mt)))) return e;
	}
	for (const r of [undefined, A, B]) {
		const mine = (x: { repo: string }): boolean => r === undefined || x.repo === r;
		if ((e = eq(`listSessions(${r})`, (await C.listSessions(null, r)).map((x: any) => [x.id, x.repo, x.summary, x.createdAt]), m.ss.filter(mine).sort((a, b) => b.c - a.c).map(s => [s.id, s.repo, s.summary, iso(s.c)])))) return e;
		for (const st of [undefined, [], ['active'], ['paused', 'completed'], ['discarded']]) {
			const g = (await C.listSessionRecords(null, { ...(r ? { repo: r } : {}), ...(st ? { statuses: st } : {}) })).map(ps); const w = m.ss.filter(s => mine(s) && (!st?.length || st.includes(s.st))).sort((a, b) => b.a - a.a).map(ms);
			if ((e = eq(`listSessionRecords(${r},${st})`, g, w))) return e;
		}
		const turns = m.ts.filter(mine);
		if ((e = eq(`all turns of ${r ?? 'all repos'}`, srt((r ? await C.getAllTurnsForRepo(null, r) : await C.getAllTurns(null)).map(pt)), srt(turns.map(mt))))) return e;
		const withV = await C.getAllTurnsWithVectorsForRepo(null, r);
		for (const t of withV) { const x = turns.find(y => y.s === t.sessionId && y.i === t.idx)!; if (x.v !== '?' && (e = eq(`vector of ${t.sessionId}#${t.idx}`, t.vector, x.v ?? []))) return e; }
		const by = (f: (t: TT) => string): any => { const o: any = {}; for (const t of turns) o[f(t)] = (o[f(t)] ?? 0) + 1; return o; };
		if ((e = eq(`stats of ${r}`, await C.getConversationStats(null, r), { totalTurns: turns.length, byType: by(t => t.type), byTier: by(t => t.tier), byRepo: by(t => t.repo), sessions: m.ss.filter(mine).length }))) return e;
	}
	const d2 = (a: number[], b: number[]): number => a.reduce((x, y, i) => x + (y - b[i]!) ** 2, 0);
	for (const r of [A, B]) for (const q of [V1, V2]) for (const lim of [1, 30]) {
		const pool = m.ts.filter(t => t.repo === r && t.type !== 'summary'); const sure = pool.filter(t => Array.isArray(t.v)); const unsure = pool.some(t => t.v === '?');
		const got = (await C.searchTurnsByRepo(null, r, q, lim)).map(pt);
		const dist = (x: any): number => { const t = pool.find(y => y.s === x.s && y.i === x.i); return t && Array.isArray(t.v) ? d2(t.v, q) : t ? -1 : NaN; };
		for (const g of got) { const t = m.ts.find(y => y.s === g.s && y.i === g.i); if (!t || canon(mt(t)) !== canon(g) || t.repo !== r) return `searchTurnsByRepo(${r}) returned ${canon(g)} which is not a current turn of that repo`; if (t.type === 'summary') return `searchTurnsByRepo(${r}) returned a session summary`; }
		if (!unsure) {
			const want = sure.map(t => d2(t.v as number[], q)).sort((a, b) => a - b).slice(0, lim);
			if ((e = eq(`searchTurnsByRepo(${r}, ${q}, ${lim}) distances`, got.map(dist), want))) return e;
		}
		const sp = m.ss.filter(s => s.repo === r && Array.isArray(s.v) && s.st !== 'discarded');
		const gs = (await C.seedFromPrior(null, r, q, lim === 1 ? 1 : 40));
		for (const g of gs) { const s = S(m, g.id); if (!s || canon(ms(s)) !== canon(ps(g)) || s.repo !== r) return `seedFromPrior(${r}) returned ${canon(ps(g))} which is not a current session of that repo`; if (s.st === 'discarded') return `seedFromPrior(${r}) returned the discarded session ${g.id}`; }
		if (lim !== 1 || !m.ss.some(s => s.st === 'discarded')) {
			const w = sp.map(s => d2(s.v as number[], q)).sort((a, b) => a - b).slice(0, lim === 1 ? 1 : 40);
			if ((e = eq(`seedFromPrior(${r}, ${q}, ${lim}) distances`, gs.map((g: any) => d2(S(m, g.id)!.v as number[], q)).sort((a: number, b: number) => a - b), w))) return e;
			if ((e = eq(`seedFromPrior(${r}) order`, gs.map((g: any) => g.createdAt), [...gs.map((g: any) => g.createdAt)].sort().reverse()))) return e;
		}
	}
	return null;
}
const rows = (d: Dump): string => `${d.db['conversation_session']!.length}/${d.db['conversation_turn']!.length}/${d.db['conversation_turn_by_repo']!.length}`;
const wantRows = (m: M): string => `${m.ss.length}/${m.ts.length}/${m.ts.filter(t => t.repo !== '').length}`;
const rank = (m: M): ((x: number) => number) => { const all = [...new Set([...m.ss.flatMap(s => [s.c, s.a]), ...m.ts.flatMap(t => [t.c, t.comp])])].sort((a, b) => a - b); return x => all.indexOf(x); };
const keyOf = (m: M): string => { const r = rank(m); return canon([srt(m.ss.map(s => ({ ...s, c: r(s.c), a: r(s.a), x: s.x < m.t ? -1 : Math.floor((s.x - m.t) / (10 * DAY)) }))), srt(m.ts.map(t => ({ ...t, c: r(t.c), comp: r(t.comp) })))]); };
async function setup(): Promise<void> { ctx = await openCtx(); installClock(); C = await repo('src/db/conversations.ts'); }
async function step(m0: M, op: Op): Promise<{ m: M; bad: string | null }> {
	const m = structuredClone(m0); clock.now += 1000; m.t = clock.now;
	const want = op.spec(m); let got: any; try { got = await op.run(); } catch (e) { return { m, bad: `failed: ${(e as Error).message}` }; }
	if (want !== undefined && canon(got) !== canon(want)) return { m, bad: `returned ${canon(got)}, expected ${canon(want)}` };
	const e = await differs(m); if (e) return { m, bad: `afterwards ${e}` };
	if (rows(dump(ctx)) !== wantRows(m)) return { m, bad: `left ${rows(dump(ctx))} session/turn/index rows, expected ${wantRows(m)}` };
	return { m, bad: null };
}
const ROOTS: Record<string, string[]> = { empty: [], busy: ['saveSession s', 'saveTurn s#0', 'saveTurn s#1', 'closeSession s:1', 'saveTurn s:1#1', "saveSession s' full", "saveTurn s'#0"], mixed: ['saveSession s full', 'saveTurn s#0 other repo', 'addCompactedTurns s#0,s:1#2', 'wait 20 days', "closeSession s'", 'saveTurn s#256'] };
const byName = (n: string): Op => { const o = OPS.find(x => x.name === n); if (!o) throw new Error('no op ' + n); return o; };
async function build(ops: string[]): Promise<{ n: Node; bad: string | null }> {
	restore(ctx, { db: {}, lance: {} }); clock.now = Date.UTC(2026, 0, 1); let m: M = { ss: [], ts: [], t: clock.now }; let bad: string | null = null;
	for (const o of ops) { const r = await step(m, byName(o)); m = r.m; bad ??= r.bad && `${o}: ${r.bad}`; }
	return { n: { d: dump(ctx), m, clock: clock.now }, bad };
}
class Dom implements Domain<Node> {
	init = setup;
	opName(i: number): string { return OPS[i]!.name; }
	async roots() { const out = []; for (const [name, ops] of Object.entries(ROOTS)) { const { n, bad } = await build(ops); out.push({ name, state: n, key: keyOf(n.m), ...(bad ? { viol: { key: 'root:' + name, what: bad } } : {}) }); } return out; }
	async expand(n: Node): Promise<Succ<Node>[]> {
		const out: Succ<Node>[] = [];
		for (let i = 0; i < OPS.length; i++) {
			const op = OPS[i]!; if (op.on && !op.on(n.m)) continue;
			restore(ctx, n.d); clock.now = n.clock;
			const r = await step(n.m, op);
			if (r.bad) out.push({ op: i, state: null, key: '', viol: { key: `${op.name.split(' ')[0]}:${r.bad.replace(/[{[].*/, '').slice(0, 50)}`, what: `${op.name}: ${r.bad}` } });
			else out.push({ op: i, state: { d: dump(ctx), m: r.m, clock: clock.now }, key: keyOf(r.m) });
		}
		return out;
	}
}
async function more(chk: Check, mine: (i: number) => boolean): Promise<void> {
	await setup(); let k = 0;
	// cap of 20 sessions per repo, mixed with expired ones
	for (const [nA, nB, nX] of [[20, 5, 0], [21, 20, 0], [25, 21, 3], [22, 0, 5]] as const) {
		if (!mine(k++)) continue;
		restore(ctx, { db: {}, lance: {} }); clock.now = Date.UTC(2026, 0, 1); const m: M = { ss: [], ts: [], t: clock.now };
		const mk = async (id: string, r: string): Promise<void> => { clock.now += 1000; m.t = clock.now; await C.saveSession(null, { id, repo: r, summary: id }, V1); m.ss.push({ ...fresh(m, id), repo: r, summary: id, v: V1 }); };
		for (let i = 0; i < nX; i++) await mk(`x${i}`, A); clock.now += 31 * DAY;
		for (let i = 0; i < Math.max(nA, nB); i++) { if (i < nA) await mk(`a${i}`, A); if (i < nB) await mk(`b${i}`, B); }
		await C.saveTurn(null, { sessionId: 'a0', idx: 0, user: 'u', assistant: 'a', entities: [], vector: V1, repo: A }); m.ts.push({ s: 'a0', i: 0, repo: A, u: 'u', a: 'a', type: 'turn', tier: 'hot', fmt: 'text', c: clock.now, comp: 0, src: [], ents: [], refs: null, v: V1 }); S(m, 'a0')!.a = clock.now;
		clock.now += 1000; m.t = clock.now; const want = pruneSpec(m); const got = await C.pruneConversations(null); chk.evaluations++;
		if (canon(got) !== canon(want)) chk.violation('prune', `pruning ${nA}+${nB} sessions and ${nX} expired ones reported ${canon(got)}, expected ${canon(want)}`, { nA, nB, nX });
		const e = await differs(m); if (e) chk.violation('prune', `after pruning ${nA}+${nB} sessions and ${nX} expired ones: ${e}`, { nA, nB, nX });
	}
	// overlapping calls: rows end up as some order of the calls would leave them
	let gate: Sched | null = null;
	for (const t of ['childTransaction', 'transaction']) { const o = ctx.root[t].bind(ctx.root); ctx.root[t] = (...a: any[]) => (gate ? gate.gated('txn', () => o(...a)) : o(...a)); }
	const par = ['saveSession s', 'saveSession s full', 'closeSession s', 'setSessionAgent s', 'setSessionStatus s paused', 'bump s', 'deleteSession s', 'deleteSessionRecord s', 'deleteTurnsForSession s', 'saveTurn s#0', 'saveTurn s#1', 'saveTurn s#0 other repo', 'saveTurn s#256', 'addCompactedTurns s#0,s:1#2', 'deleteTurnsByIds s:0,s:1:1,bogus', 'deleteTurnsForRepo /ra', 'deleteSessionsForRepo /ra'];
	const { n } = await build(ROOTS['busy']!);
	const view = async (): Promise<string> => { const d = dump(ctx); return canon([rows(d), (await C.listSessionRecords(null, {})).map(ps).map((x: any) => ({ ...x, c: 0, x: 0, a: 0 })).sort((a: any, b: any) => (a.id < b.id ? -1 : 1)), srt((await C.getAllTurns(null)).map(pt).map((x: any) => ({ ...x, c: 0, comp: 0 }))), srt((await C.getAllTurnsForRepo(null, A)).map((t: any) => [t.sessionId, t.idx]))]); };
	for (let a = 0; a < par.length; a++) for (let b = a; b < par.length; b++) {
		if (!mine(k++)) continue; const ops = [byName(par[a]!), byName(par[b]!)]; const allowed = new Set<string>();
		gate = null;
		for (const ord of [[0, 1], [1, 0]]) { restore(ctx, n.d); clock.now = n.clock; for (const i of ord) { clock.now += 1000; await ops[i]!.run(); } allowed.add(await view()); }
		const { runs } = await allSchedules(async choices => {
			restore(ctx, n.d); clock.now = n.clock + 1000; const s = new Sched(); gate = s; let fin = 0; let err: unknown = null;
			ops.forEach((op, i) => { void s.point('start ' + i).then(async () => { try { await op.run(); } catch (e) { err = e; } fin++; }); });
			const r = await runSchedule(s, () => fin === 2, choices, 14); gate = null; chk.transitions++;
			const names = `${par[a]} || ${par[b]}`;
			if (err) chk.violation('overlap-fail', `${names}: ${(err as Error).message}`, { schedule: r.trace });
			else if (r.stuck) chk.violation('overlap-stuck', `${names}: never completed`, { schedule: r.trace });
			else { const v = await view(); if (!allowed.has(v) && !(par[a]!.startsWith('deleteTurnsForRepo') || par[b]!.startsWith('delete') && par[b]!.includes('ForRepo'))) chk.violation('overlap', `${names}: the stored conversation ${v} matches neither order of the two calls`, { schedule: r.trace }); }
			return r;
		}, 300);
		chk.evaluations += runs; chk.nontrivial++;
	}
}
const dom = new Dom();
if (isWorker) await serveWorker(dom);
else main(async () => {
	const chk = new Check('C07', 'model_checking');
	chk.assumptions.push('vector store replaced by an in-memory table with the same contract', 'virtual clock: every call happens at its own instant');
	await chk.sharded(m => more(chk, m));
	if (SHARD < 0) {
		const pairs = chk.transitions;
		await explore(chk, dom, { depth: THOROUGH ? 5 : 2, maxMs: THOROUGH ? 600_000 : 40_000 });
		chk.extra['operations'] = OPS.length; chk.extra['overlap_schedules'] = pairs; chk.evaluations += chk.transitions; chk.nontrivial += chk.states;
		chk.rule = 'every operation in every explored state, all readers and searches compared with the model; all pairs of 17 overlapping calls';
		chk.finish();
	}
});
