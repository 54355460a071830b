// C08: conversation compaction — every turn is kept, rewritten or accounted for exactly as documented; directives survive; caps hold; dry run, crash and concurrency safety.
import { Check, main, THOROUGH, canon, SHARD, repo, product } from '../lib/mc.mts';
import { openCtx, dump, restore, type Ctx } from '../lib/store.mts';
import { Sched, runSchedule, allSchedules } from '../lib/sched.mts';
import { clock, installClock, DAY } from '../lib/vtime.mts';

interface T { sessionId: string; idx: number; user: string; assistant: string; entities: string[]; vector: number[]; repo: string; type: string; tier: string; createdAt: string; compactedAt: string; sourceIds: string[]; format?: string; assertionRefs?: string[] }
type Opts = { repo?: string; maxTurnsPerRepo?: number; maxDirectivesPerRepo?: number; similarityThreshold?: number; hotDays?: number; warmDays?: number; coldDays?: number };
let ctx: Ctx, C: any, K: any;
const NOW = Date.UTC(2026, 0, 1); const A = '/ra', B = '/ra/b';
const ang = (d: number): number[] => [Math.fround(Math.cos(d * Math.PI / 180)), Math.fround(Math.sin(d * Math.PI / 180)), 0, 0];
const EMB = [0, 0, 1, 0];
const iso = (n: number): string => new Date(n).toISOString();
const idOf = (t: { sessionId: string; idx: number }): string => `${t.sessionId}:${t.idx}`;
const L = 'x'.repeat(700);
interface Spec { n: string; age: number; u: string; a?: string; v?: number[]; type?: string; tier?: string; ents?: string[] }
const CONTENT: Spec[] = [
	{ n: 'hot', age: 1, u: 'what is this', v: ang(0) },
	{ n: 'hot~', age: 2, u: 'what is that', v: ang(20) },
	{ n: 'hot rule', age: 1, u: 'Please always use tabs. Thanks for that', a: 'Understood, tabs it is. More', v: ang(0) },
	{ n: 'warm', age: 8, u: 'warm question', a: 'short', v: ang(90) },
	{ n: 'warm long', age: 20, u: 'warm q2', a: L, v: ang(0) },
	{ n: 'warm rule', age: 20, u: 'never touch main', v: ang(0) },
	{ n: 'warm done', age: 9, u: 'w done', tier: 'warm', v: ang(5) },
	{ n: 'cold 0', age: 40, u: 'cold q', v: ang(0), ents: ['e1'] },
	{ n: 'cold 29', age: 41, u: 'cold q', a: L, v: ang(29), ents: ['e1', 'e2'] },
	{ n: 'cold 56', age: 45, u: 'other cold', a: 'zz', v: ang(56), ents: ['e3'] },
	{ n: 'cold novec', age: 44, u: 'cold nv' },
	{ n: 'cold rule', age: 50, u: 'we must always lint', v: ang(0) },
	{ n: 'old', age: 100, u: 'o'.repeat(150), v: ang(0), ents: ['e1'] },
	{ n: 'older', age: 200, u: 'older one', v: ang(10), ents: ['e4'] },
	{ n: 'was directive', age: 120, u: 'keep me', type: 'directive', tier: 'hot', v: ang(0) },
	{ n: 'was merged', age: 60, u: 'm1\n---\nm2', type: 'merged', tier: 'cold', v: ang(0) },
	{ n: 'was summary', age: 150, u: 'Session summary', a: '- q', type: 'summary', tier: 'archive', v: ang(0) },
];
function mk(s: Spec, sessionId: string, idx: number, r: string, jitter: number): any {
	const at = iso(NOW - s.age * DAY + jitter * 60_000);
	return { sessionId, idx, user: s.u, assistant: s.a ?? `re ${s.n}`, entities: s.ents ?? [], vector: s.v ?? [], repo: r, createdAt: at, ...(s.type ? { type: s.type } : {}), ...(s.tier ? { tier: s.tier, compactedAt: at } : {}), ...(s.type ? { sourceIds: ['z:1'] } : {}) };
}
const isRule = (u: string): boolean => /\b(always|never)\b/.test(u);
const ts = (t: T): number => new Date(t.createdAt).getTime();
const dot = (a: number[], b: number[]): number => { if (!a.length || a.length !== b.length) return 0; let x = 0, y = 0, z = 0; a.forEach((v, i) => { x += v * b[i]!; y += v * v; z += b[i]! ** 2; }); return y && z ? x / Math.sqrt(y * z) : 0; };
const near = (a: number[], b: number[]): boolean => a.length === b.length && a.every((x, i) => Math.abs(x - b[i]!) < 1e-5);
const same = (a: T, b: T): boolean => canon({ ...a, vector: 0 }) === canon({ ...b, vector: 0 }) && near(a.vector, b.vector);
const all = async (r?: string): Promise<T[]> => C.getAllTurnsWithVectorsForRepo(null, r);
const short = (t: T): string => `${idOf(t)}[${t.type}/${t.tier} "${t.user.slice(0, 20)}" ${Math.round((clock.now - ts(t)) / DAY)}d]`;
type Emb = 'ok' | 'empty' | 'fails';
const embedOf = (e: Emb) => async (): Promise<number[]> => { if (e === 'fails') throw new Error('embedder down'); return e === 'ok' ? EMB : []; };

/** independent account of what one run over `pre` must leave in `post`; returns the first deviation */
function judge(pre: T[], post: T[], res: any, o: Opts, emb: Emb): string | null {
	const now = clock.now; const hot = now - (o.hotDays ?? 7) * DAY, warm = now - (o.warmDays ?? 30) * DAY, cold = now - (o.coldDays ?? 90) * DAY; const thr = o.similarityThreshold ?? 0.85;
	const P = new Map(post.map(t => [idOf(t), t])); const used = new Set<string>();
	const cnt = { directives: 0, warmCompressed: 0, coldMerged: 0, archived: 0, deduped: 0, capped: 0 };
	const gone = (t: T, why: string): string | null => (P.has(idOf(t)) && !used.has(idOf(t)) ? `${short(t)} should have been replaced (${why}) but is still there` : null);
	for (const r of new Set(pre.map(t => t.repo))) {
		const mine = pre.filter(t => t.repo === r);
		const touched = new Set<T>(); const rules = mine.filter(t => t.type === 'turn' && isRule(t.user)); rules.forEach(t => touched.add(t)); cnt.directives += rules.length;
		const plain = mine.filter(t => t.type === 'turn' && !isRule(t.user));
		// which directives survive the cap
		const dirs = [...rules, ...mine.filter(t => t.type === 'directive')].sort((a, b) => ts(a) - ts(b));
		const drop = dirs.slice(0, Math.max(0, dirs.length - (o.maxDirectivesPerRepo ?? 50))); cnt.capped += drop.length;
		for (const t of dirs) {
			const p = P.get(idOf(t));
			if (drop.includes(t)) { if (p) return `directive ${short(t)} exceeds the cap of ${o.maxDirectivesPerRepo} but survived`; continue; }
			if (!p) return `directive ${short(t)} was lost`;
			used.add(idOf(t));
			if (t.type === 'directive') { if (!same(t, p)) return `directive ${short(t)} was altered to ${canon(p)}`; continue; }
			if (p.type !== 'directive' || p.tier !== 'hot' || p.repo !== r) return `${short(t)} states a rule but became ${short(p)} of repo "${p.repo}"`;
			const key = /[^.]*\b(always|never)\b[^.]*/.exec(t.user)![0].trim().slice(0, 400); if (!p.user.includes(key)) return `directive ${idOf(t)} lost its rule: "${p.user}"`;
			if (canon(p.sourceIds) !== canon([idOf(t)]) || canon(p.entities) !== canon(t.entities) || !near(p.vector, t.vector)) return `directive made of ${short(t)} has sources, entities or vector ${canon([p.sourceIds, p.entities, p.vector])}`;
		}
		let added = 0;
		for (const t of plain) if (ts(t) < hot && ts(t) >= warm && t.tier === 'hot') {
			touched.add(t); cnt.warmCompressed++; added++; const p = P.get(idOf(t)); if (!p) return `warm turn ${short(t)} was lost`; used.add(idOf(t));
			if (p.type !== 'turn' || p.tier !== 'warm' || p.repo !== r || p.user !== t.user || p.assistant !== t.assistant.slice(0, 500) || canon(p.entities) !== canon(t.entities) || p.format !== t.format || canon(p.assertionRefs) !== canon(t.assertionRefs)) return `warm turn ${short(t)} became ${canon(p)}`;
			if (!near(p.vector, r === '' ? [] : emb === 'ok' ? EMB : t.vector)) return `warm turn ${short(t)} has vector ${canon(p.vector)}`;
		}
		const coldT = plain.filter(t => ts(t) < warm && ts(t) >= cold); const left = new Set(coldT);
		while (left.size) {
			const cl: T[] = [left.values().next().value!]; left.delete(cl[0]!);
			for (let i = 0; i < cl.length; i++) for (const u of [...left]) if (dot(cl[i]!.vector, u.vector) > thr) { left.delete(u); cl.push(u); }
			if (cl.length < 2) continue;
			cl.forEach(t => touched.add(t)); cnt.coldMerged += cl.length; added++;
			const ids = cl.map(idOf).sort(); const m = post.filter(p => p.type === 'merged' && canon([...p.sourceIds].sort()) === canon(ids) && !used.has(idOf(p)) && !pre.some(q => same(q, p)));
			if (m.length !== 1) return `similar cold turns ${cl.map(short)} should become one merged entry, found ${m.length}`;
			const p = m[0]!; used.add(idOf(p)); if (!ids.includes(idOf(p))) return `merged entry ${idOf(p)} occupies a slot outside its cluster ${ids}`;
			if (p.repo !== r || p.tier !== 'cold') return `merged entry ${short(p)} is in repo "${p.repo}"`;
			if (canon(p.user.split('\n---\n').sort()) !== canon([...new Set(cl.map(t => t.user))].sort())) return `merged entry of ${ids} has user text ${canon(p.user)}`;
			const longest = Math.max(...cl.map(t => t.assistant.length)); if (!cl.some(t => t.assistant.length === longest && p.assistant === t.assistant.slice(0, 500))) return `merged entry of ${ids} has assistant text ${canon(p.assistant.slice(0, 40))}`;
			if (canon([...p.entities].sort()) !== canon([...new Set(cl.flatMap(t => t.entities))].sort())) return `merged entry of ${ids} has entities ${canon(p.entities)}`;
			const vs = cl.map(t => t.vector).filter(v => v.length); if (r !== '' && !near(p.vector, vs[0]!.map((_, i) => vs.reduce((s, v) => s + v[i]!, 0) / vs.length))) return `merged entry of ${ids} has vector ${canon(p.vector)}`;
			for (const t of cl) { const e = gone(t, 'merged'); if (e) return e; }
		}
		const old = plain.filter(t => ts(t) < cold);
		for (const sid of new Set(old.map(t => t.sessionId))) {
			const g = old.filter(t => t.sessionId === sid); g.forEach(t => touched.add(t)); cnt.archived += g.length; added++; const ids = g.map(idOf).sort();
			const m = post.filter(p => p.type === 'summary' && canon([...p.sourceIds].sort()) === canon(ids) && !used.has(idOf(p)));
			if (m.length !== 1) return `archived turns ${g.map(short)} should become one summary, found ${m.length}`;
			const p = m[0]!; used.add(idOf(p)); if (p.sessionId !== sid || p.repo !== r || p.tier !== 'archive') return `summary of ${ids} is ${short(p)} in repo "${p.repo}"`;
			if (!ids.includes(idOf(p))) return `summary of ${ids} was written over ${idOf(p)}`;
			const want = g.map(t => `- ${t.user.slice(0, 100)}`); if (want.join('\n').length <= 1000 ? canon(p.assistant.split('\n').sort()) !== canon(want.sort()) : p.assistant.length !== 1000 || !p.assistant.split('\n').slice(0, -1).every(l => want.includes(l))) return `summary of ${ids} reads ${canon(p.assistant)}`;
			if (canon([...p.entities].sort()) !== canon([...new Set(g.flatMap(t => t.entities))].sort())) return `summary of ${ids} has entities ${canon(p.entities)}`;
			const vs = g.map(t => t.vector).filter(v => v.length); if (r !== '' && !near(p.vector, vs.length ? vs[0]!.map((_, i) => vs.reduce((s, v) => s + v[i]!, 0) / vs.length) : [])) return `summary of ${ids} has vector ${canon(p.vector)}`;
			for (const t of g) { const e = gone(t, 'archived'); if (e) return e; }
		}
		// untouched entries: capped, deduplicated or verbatim
		let rest = mine.filter(t => !touched.has(t) && t.type !== 'directive');
		const excess = Math.max(0, rest.length + added - (o.maxTurnsPerRepo ?? 500)); const pr: Record<string, number> = { archive: 0, cold: 1, warm: 2, hot: 3 };
		const cap = [...rest].sort((a, b) => pr[a.tier]! - pr[b.tier]! || ts(a) - ts(b)).slice(0, excess); cnt.capped += cap.length;
		for (const t of cap) { if (P.has(idOf(t)) && !used.has(idOf(t))) return `${short(t)} exceeds the cap of ${o.maxTurnsPerRepo} entries but survived`; }
		rest = rest.filter(t => !cap.includes(t)); const kept = rest.filter(t => P.has(idOf(t)) && !used.has(idOf(t)));
		for (const t of rest) {
			if (kept.includes(t)) { used.add(idOf(t)); if (!same(t, P.get(idOf(t))!)) return `${short(t)} should be unchanged but became ${canon(P.get(idOf(t)))}`; continue; }
			cnt.deduped++;
			if (!rest.some(u => u !== t && u.tier === t.tier && dot(u.vector, t.vector) > 0.92 && ts(u) >= ts(t))) return `${short(t)} was removed without being a duplicate, over a cap, merged or archived`;
		}
		for (const t of kept) for (const u of kept) if (t !== u && t.tier === u.tier && dot(t.vector, u.vector) > 0.92) return `${short(t)} and ${short(u)} are duplicates but both survived`;
	}
	for (const p of post) if (!used.has(idOf(p))) return `${short(p)} appeared from nowhere`;
	if (canon(res) !== canon(cnt)) return `reported ${canon(res)} but did ${canon(cnt)}`;
	return null;
}
function vecs(post: T[]): string | null {
	const rows = (dump(ctx).lance['turn_vec'] ?? []).filter(r => !String(r.id).startsWith('_seed')); const P = new Map(post.map(t => [idOf(t), t]));
	for (const r of rows) { const t = P.get(r.id); if (!t) return `the vector of ${r.id} outlived its entry`; if (r.type !== t.type || r.tier !== t.tier || r.repo !== t.repo || r.sessionId !== t.sessionId) return `the vector of ${r.id} is filed as ${r.type}/${r.tier} of ${r.repo}, the entry is ${t.type}/${t.tier} of ${t.repo}`; }
	return null;
}
async function load(ts0: any[]): Promise<void> { restore(ctx, { db: {}, lance: {} }); clock.now = NOW; for (const t of ts0) await C.saveTurn(null, t); }
async function once(o: Opts, emb: Emb): Promise<string | null> {
	const pre = await all(o.repo); const others = o.repo === undefined ? [] : (await all()).filter(t => t.repo !== o.repo); const d0 = canon(dump(ctx));
	const dry = await K.compactConversations(null, embedOf(emb), { ...o, dryRun: true });
	if (canon(dump(ctx)) !== d0) return 'a dry run changed the store';
	const res = await K.compactConversations(null, embedOf(emb), o);
	if (canon(res) !== canon(dry)) return `the dry run announced ${canon(dry)}, the run did ${canon(res)}`;
	const post = await all(o.repo); const e = judge(pre, post, res, o, emb); if (e) return e;
	if (o.repo !== undefined) { const o2 = (await all()).filter(t => t.repo !== o.repo); if (o2.length !== others.length || others.some(t => !o2.some(u => same(t, u)))) return `compacting ${o.repo} changed another repo`; }
	return vecs(await all());
}
const OPTS: Opts[] = [{}, { maxTurnsPerRepo: 1, maxDirectivesPerRepo: 1 }, { maxTurnsPerRepo: 2 }];
async function history(chk: Check, name: string, turns: any[], o: Opts, emb: Emb, waits = [0, 35, 70]): Promise<void> {
	await load(turns); chk.nontrivial++;
	for (const [i, w] of waits.entries()) {
		clock.now += w * DAY; const e = await once(o, emb); chk.evaluations++; chk.transitions += 2;
		if (e) { chk.violation(e.replace(/[^ ]*\[.*|["{[\d/].*/, '').slice(0, 60) || 'x', `${name} with ${canon(o)}${emb === 'ok' ? '' : `, embedder ${emb}`}, run ${i + 1}: ${e}`, { turns: turns.map(t => ({ ...t, user: t.user.slice(0, 40), assistant: t.assistant.slice(0, 40) })), o, run: i + 1 }); return; }
	}
}
async function work(chk: Check, mine: (i: number) => boolean): Promise<void> {
	ctx = await openCtx(); installClock(); C = await repo('src/db/conversations.ts'); K = await repo('src/db/compaction.ts');
	let k = 0; const NC = CONTENT.length; const idx = [...Array(NC).keys()];
	// 1. all histories over three (thorough: four) slots of one repo
	const slots: [string, number][] = [['s', 0], ['s', 1], ['t', 0], ...(THOROUGH ? [['t', 300] as [string, number]] : [])];
	for (const pick of product(...slots.map(() => idx))) for (const o of OPTS) {
		if (!mine(k++)) continue;
		await history(chk, pick.map(i => CONTENT[i]!.n).join(' | '), pick.map((c, i) => mk(CONTENT[c]!, slots[i]![0], slots[i]![1], A, i)), o, 'ok', pick.every((c, i) => i === 0 || c >= pick[i - 1]!) ? [0, 35, 70] : [0, 70]);
	}
	// 2. the same contents in different repos (and without one), restricted runs, embedder failures
	for (const [a, b] of product(idx, idx)) for (const [ra, rb] of [[A, B], [A, ''], [B, A]] as const) for (const o of [{}, { repo: A, maxTurnsPerRepo: 1, maxDirectivesPerRepo: 0 }, { maxTurnsPerRepo: 1, maxDirectivesPerRepo: 1 }, { maxTurnsPerRepo: 2 }] as Opts[]) for (const emb of ['ok', 'empty', 'fails'] as Emb[]) {
		if (emb !== 'ok' && o.repo === undefined && o.maxTurnsPerRepo !== undefined) continue;
		if (!mine(k++)) continue;
		await history(chk, `${CONTENT[a]!.n} @${ra} | ${CONTENT[b]!.n} @${ra} | ${CONTENT[b]!.n} @${rb}`, [mk(CONTENT[a]!, 's', 0, ra, 0), mk(CONTENT[b]!, 's:1', 0, ra, 1), mk(CONTENT[b]!, 's', 1, rb, 2)], o, emb, [0, 35]);
	}
	// 3. age boundaries, thresholds, many turns, batches
	const P = (n: string, age: number, off: number, s: string, i: number, v = ang(i * 40)): any => ({ ...mk({ n, age, u: `q ${n}` }, s, i, A, 0), createdAt: iso(NOW - age * DAY + off), vector: v });
	for (const d of [7, 30, 90]) for (const off of [-1, 0, 1]) for (const o of [{}, { hotDays: 3, warmDays: 7, coldDays: 30 }, { hotDays: 7, warmDays: 7, coldDays: 7 }] as Opts[]) { if (mine(k++)) await history(chk, `turns aged ${d} days${off < 0 ? ' and a bit' : off > 0 ? ' less a bit' : ''}`, [P('a', d, off, 's', 0, ang(0)), P('b', d, off, 's', 1, ang(10))], o, 'ok', [0]); }
	for (const [x, y, z] of product([0, 20, 31, 33], [20, 33, 40, 60], [60, 64, 90, 93])) for (const thr of [undefined, 0.5, 0.99]) { if (mine(k++)) await history(chk, `cold turns at ${x}/${y}/${z} degrees`, [P('a', 40, 0, 's', 0, ang(x!)), P('b', 41, 0, 's', 1, ang(y!)), P('c', 42, 0, 't', 0, ang(z!)), P('d', 43, 0, 't', 1, [])], thr === undefined ? {} : { similarityThreshold: thr }, 'ok', [0, 0]); }
	for (const n of [99, 100, 101, 205]) for (const kind of ['cold', 'archive', 'cap'] as const) {
		if (!mine(k++)) continue;
		const ts0 = [...Array(n).keys()].map(i => ({ ...P(`n${i}`, kind === 'cold' ? 50 : kind === 'archive' ? 120 : 1, i * 1000, i % 2 ? 's' : 't', i, kind === 'cap' ? [] : ang(0)) }));
		await history(chk, `${n} ${kind} turns`, ts0, kind === 'cap' ? { maxTurnsPerRepo: 3 } : {}, 'ok', [0, 0]);
	}
	for (const cap of [0, 1, 2, 5, 50]) { if (mine(k++)) await history(chk, `rules, cap ${cap}`, [...Array(4).keys()].map(i => ({ ...P(`r${i}`, 1 + i, 0, 's', i), user: `always do ${i}` })).concat([...Array(3).keys()].map(i => ({ ...P(`d${i}`, 60 - i, 0, 't', i), type: 'directive', tier: 'hot' }))), { maxDirectivesPerRepo: cap }, 'ok', [0, 0, 100]); }
	for (const u of ['never use claude opus as a model', 'always use .js extensions in imports', 'prefer vitest over jest', "don't commit to main", 'do not rename files', 'avoid default exports', 'use pnpm instead of npm here', 'from now on answer briefly', 'remember the build target']) for (const age of [1, 20, 50, 200]) {
		if (!mine(k++)) continue; await load([{ ...P('x', age, 0, 's', 0), user: u }]); chk.evaluations++;
		for (const w of [0, 40, 100]) { clock.now += w * DAY; await K.compactConversations(null, embedOf('ok'), {}); const t = await all(); if (t.length !== 1 || t[0]!.type !== 'directive' || !t[0]!.user.includes(u)) { chk.violation('rule-phrase', `the rule "${u}" stated ${age} days ago became ${canon(t)}`, { u, age }); break; } }
	}
	// 4. interruption before every store operation: nothing is lost, and a rerun finishes the job
	let fail = -1, seen = 0, gate: Sched | null = null;
	for (const t of ['childTransaction', 'transaction']) { const o = ctx.root[t].bind(ctx.root); ctx.root[t] = (...a: any[]) => { if (fail >= 0 && seen++ >= fail) return Promise.reject(new Error('crash')); return gate ? gate.gated('txn', () => o(...a)) : o(...a); }; }
	const rich = (o: number): any[] => CONTENT.filter((_, i) => (i + o) % 3 !== 0).map((s, i) => mk(s, i % 2 ? 's' : 't', i, A, i));
	const many = [...Array(230).keys()].map(i => P(`n${i}`, i < 120 ? 50 : 120, i * 1000, i % 2 ? 's' : 't', i, ang(0)));
	for (const [nm, ts0] of [['mix 0', rich(0)], ['mix 1', rich(1)], ['mix 2', rich(2)], ['230 turns', many]] as const) for (let at = 0; at < 8; at++) for (const where of ['store', 'vectors'] as const) for (const o of [{}, { maxTurnsPerRepo: 3, maxDirectivesPerRepo: 1 }]) {
		if (!mine(k++)) continue; await load(ts0); const pre = await all(); chk.evaluations++; chk.nontrivial++;
		const clean = new Set<string>(); { const d = dump(ctx); await K.compactConversations(null, embedOf('ok'), o); for (const t of pre) { const p = (await all()); if (!p.some(x => idOf(x) === idOf(t) || x.sourceIds.includes(idOf(t)))) clean.add(idOf(t)); if (pre.length > 100 && o.maxTurnsPerRepo === undefined) break; } restore(ctx, d); }
		const st = ctx.lance.stats; if (where === 'store') { fail = at; seen = 0; } else { const base = st.ops; st.failNext = (n: number) => n > base + 1 + at; }
		try { await K.compactConversations(null, embedOf('ok'), o); } catch { /* interrupted */ } fail = -1; st.failNext = null;
		const lost = (post: T[]): T | undefined => { const src = new Set(post.flatMap(p => [idOf(p), ...p.sourceIds])); return pre.find(t => !src.has(idOf(t)) && !clean.has(idOf(t))); };
		const post = await all(); let l = lost(post); chk.transitions++;
		for (const p of post) { const t = pre.find(x => idOf(x) === idOf(p)); if (!t) { chk.violation('crash-new', `interrupted compaction left ${short(p)}, which replaces nothing`, { nm, at, where }); } else if (t.type !== 'turn' && canon({ ...t, vector: 0 }) !== canon({ ...p, vector: 0 })) chk.violation('crash-overwrite', `interrupted compaction overwrote ${short(t)} with ${short(p)}`, { nm, at, where }); }
		if (l) chk.violation('crash-lost', `${nm}: compaction interrupted at ${where} operation ${at} lost ${short(l)}`, { nm, at, where, o });
		await K.compactConversations(null, embedOf('ok'), { ...o, similarityThreshold: 2 }); l = lost(await all());
		if (l && o.maxTurnsPerRepo === undefined && !post.some(p => dot(p.vector, l!.vector) > 0.92)) chk.violation('crash-rerun', `${nm}: rerunning after an interruption at ${where} operation ${at} lost ${short(l)}`, { nm, at, where, o });
	}
	// 5. turns saved, sessions deleted and turns deleted while compaction runs
	const others: [string, () => Promise<any>, (id: string) => boolean][] = [
		['save a new turn', () => C.saveTurn(null, { sessionId: 's', idx: 900, user: 'new', assistant: 'n', entities: [], vector: ang(0), repo: A }), () => false],
		['delete session s', () => C.deleteSession(null, 's'), id => id.startsWith('s:')],
		['delete turns of session t', () => C.deleteTurnsForSession(null, 't'), id => id.startsWith('t:')],
		['delete turn s:0', () => C.deleteTurnsByIds(null, ['s:0']), id => id === 's:0'],
		['compact', () => K.compactConversations(null, embedOf('ok'), {}), () => false],
	];
	const small: [string, any[]][] = [['warm', [mk(CONTENT[4]!, 's', 0, A, 0), mk(CONTENT[3]!, 't', 0, A, 1)]], ['rules', [mk(CONTENT[2]!, 's', 0, A, 0), mk(CONTENT[5]!, 't', 0, A, 1)]], ['cold', [mk(CONTENT[7]!, 's', 0, A, 0), mk(CONTENT[8]!, 't', 0, A, 1), mk(CONTENT[3]!, 's', 1, A, 1)]], ['archive', [mk(CONTENT[12]!, 's', 0, A, 0), mk(CONTENT[13]!, 's', 1, A, 1), mk(CONTENT[13]!, 't', 3, A, 1), mk(CONTENT[4]!, 't', 4, A, 1)]]];
	for (const [nm, ts0] of small) for (const [on, op, hit] of others) {
		if (!mine(k++)) continue; await load(ts0); const d0 = dump(ctx); const pre = await all();
		const missing = async (): Promise<string[]> => { const post = await all(); const src = new Set(post.flatMap(p => [idOf(p), ...p.sourceIds])); return pre.map(idOf).filter(i => !src.has(i)); };
		const may = new Set<string>(); for (const first of [0, 1]) { gate = null; restore(ctx, d0); clock.now = NOW; if (first) await op(); await K.compactConversations(null, embedOf('ok'), {}); if (!first) await op(); (await missing()).forEach(i => may.add(i)); }
		const { runs } = await allSchedules(async choices => {
			gate = null; restore(ctx, d0); clock.now = NOW; const s = new Sched(); gate = s; let fin = 0; const errs: string[] = [];
			void s.point('start 0').then(async () => { try { await K.compactConversations(null, async () => { await s.point('embed'); return EMB; }, {}); } catch (e) { errs.push((e as Error).message); } fin++; });
			void s.point('start 1').then(async () => { try { await op(); } catch (e) { errs.push((e as Error).message); } fin++; });
			const r = await runSchedule(s, () => fin === 2, choices, 14); gate = null; chk.transitions++;
			const name = `compaction of ${nm} turns || ${on}`; const post = await all();
			if (errs.length) chk.violation('conc-fail', `${name}: ${errs[0]}`, { schedule: r.trace });
			if (r.stuck) chk.violation('conc-stuck', `${name}: never completed`, { schedule: r.trace });
			const back = post.find(p => hit(idOf(p))); if (back) chk.violation('conc-back', `${name}: deleted ${idOf(back)} came back as ${short(back)}`, { schedule: r.trace });
			if (on.startsWith('save') && !post.some(p => idOf(p) === 's:900' && p.user === 'new' && p.type === 'turn')) chk.violation('conc-new', `${name}: the new turn was lost`, { schedule: r.trace });
			const l = (await missing()).find(i => !may.has(i));
			if (l) chk.violation('conc-lost', `${name}: lost ${l}`, { schedule: r.trace });
			return r;
		}, 400);
		chk.evaluations += runs; chk.nontrivial++;
	}
}
main(async () => {
	const chk = new Check('C08', 'fault_enumeration');
	chk.assumptions.push('vector store replaced by an in-memory table with the same contract', 'virtual clock');
	await chk.sharded(m => work(chk, m));
	if (SHARD < 0) { chk.rule = 'every assignment of 17 turn contents to the slots x caps, followed by further runs as time passes, against an independent account of the run'; chk.sample({ contents: CONTENT.map(c => c.n) }); chk.finish(); }
});
