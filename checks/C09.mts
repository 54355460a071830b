// C09: todo lists — every RPC history behaves like the specified owner-guarded tree, events carry the current snapshot, and concurrent calls act as if run one after another.
import { Check, main, THOROUGH, canon, repo, SHARD } from '../lib/mc.mts';
import { explore, isWorker, serveWorker, type Domain, type Succ } from '../lib/explore.mts';
import { openCtx, dump, restore, type Ctx, type Dump } from '../lib/store.mts';
import { Sched, runSchedule, allSchedules } from '../lib/sched.mts';

// ---- virtual time: every operation gets its own second
let clock = Date.UTC(2026, 0, 1);
const RealDate = Date;
class VDate extends RealDate { constructor(...a: any[]) { if (a.length === 0) super(clock); else super(...(a as [any])); } static now(): number { return clock; } }
const DAY = 86_400_000;

// ---- specification
type Caller = 'brainstorm' | 'planner' | 'user' | 'system';
interface MC { n: string; author: string; body: string; ack: boolean; edited: boolean }
interface MI { n: string; title: string; desc?: string; status: string; reason?: string; tags?: string[]; meta?: any; done: boolean; cs: MC[] }
interface ML { n: string; s: string; parent: string | null; title: string; desc?: string; body?: string; status: string; owner: string; source: string; tr: [string, string, string, string][]; items: MI[]; born: number; u: number }
interface M { ls: ML[]; t: number; seq: number }
interface Node { d: Dump; m: M; ids: Record<string, string>; clock: number }
const TERM = ['completed', 'cancelled'];
const IT: Record<string, string[]> = { pending: ['in_progress', 'cancelled'], in_progress: ['blocked', 'completed', 'cancelled', 'pending'], blocked: ['in_progress', 'pending', 'cancelled'], completed: [], cancelled: [] };
const LT: Record<string, string[]> = { active: ['completed', 'archived'], completed: ['active', 'archived'], archived: ['active'] };
type Ev = [string, any];
type Out = { r: string; ev: Ev[]; val?: any };
const err = (e: string): Out => ({ r: e, ev: [] });
const free = (used: string[], p: string): string => { for (let i = 1; ; i++) if (!used.includes(p + i)) return p + i; };
const items = (m: M): MI[] => m.ls.flatMap(l => l.items);
const comments = (m: M): MC[] => items(m).flatMap(i => i.cs);
const L = (m: M, n: string): ML | undefined => m.ls.find(l => l.n === n);
const holder = (m: M, i: string): ML | undefined => m.ls.find(l => l.items.some(x => x.n === i));
const holderC = (m: M, k: string): [ML, MI, MC] | undefined => { for (const l of m.ls) for (const i of l.items) for (const c of i.cs) if (c.n === k) return [l, i, c]; return undefined; };
/** externally visible form of a list */
const vi = (i: MI, withC = true): any => ({ n: i.n, title: i.title, desc: i.desc ?? null, status: i.status, reason: i.status === 'blocked' ? i.reason : null, tags: i.tags ?? [], meta: i.meta ?? {}, done: i.done, ...(withC ? { cs: i.cs.map(vc) } : {}) });
const vc = (c: MC): any => ({ n: c.n, author: c.author, body: c.body, ack: c.ack, edited: c.edited });
const vl = (l: ML): any => ({ n: l.n, s: l.s, parent: l.parent, title: l.title, desc: l.desc ?? null, body: l.body ?? null, status: l.status, owner: l.owner, source: l.source, tr: l.tr, items: l.items.map(i => vi(i)) });
const chainOk = (m: M, p: string): boolean => { for (let c: string | null = p; c; c = L(m, c)!.parent) { if (!L(m, c)) return false; } return true; };
function guard(m: M, n: string, who: Caller): [ML, null] | [null, Out] {
	const l = L(m, n); if (!l) return [null, err('invalid_ids')];
	if (who === 'system') return [null, err('system_cannot_write_lists')];
	if (l.owner !== who) return [null, err('owner_mismatch')];
	return [l, null];
}
interface Op { name: string; fn: string; /** null = not applicable in this state */ params: (m: M, id: (n: string) => string) => any | null; spec: (m: M) => Out }
const OPS: Op[] = [];
const add = (name: string, fn: string, params: Op['params'], spec: Op['spec']): void => { OPS.push({ name, fn, params, spec }); };
const AG: Caller[] = ['brainstorm', 'planner', 'user', 'system'];
const LN = ['L1', 'L2', 'L3'], IN = ['I1', 'I2', 'I3'], KN = ['K1', 'K2'];
let MAXL = 3, MAXI = 3;
const c = (who: Caller): any => (who === 'user' ? {} : { caller: who });

function create(who: Caller, s: string, parent: string | null, owner: string | null, seeds: number): void {
	add(`${who}.create(${s}${parent ? ',under ' + parent : ''}${owner ? ',owner ' + owner : ''}${seeds ? ',items' + seeds : ''})`, 'create',
		(m, id) => (m.ls.length >= MAXL || items(m).length + seeds > MAXI || (parent !== null && (!L(m, parent) || !chainOk(m, parent))) ? null
			: { ...c(who), sessionId: s, title: 'list', description: 'D', body: 'B', ...(owner ? { owner } : {}), ...(parent ? { parentListId: id(parent) } : {}), ...(seeds ? { items: Array.from({ length: seeds }, (_, i) => ({ title: 'seed' + i, description: 'sd', tags: ['t', 3], meta: { a: 1 } })).concat([{ title: '' } as any, null as any]) } : {}) }),
		m => {
			const o = owner ?? (who === 'user' ? null : who);
			if (o === null || o !== who) return err('invalid_owner');
			if (parent && L(m, parent)!.s !== s) return err('invalid_parent');
			const n = free(m.ls.map(l => l.n), 'L');
			const l: ML = { n, s, parent, title: 'list', desc: 'D', body: 'B', status: 'active', owner: o, source: o, tr: [[o, o, 'created', o]], items: [], born: m.seq++, u: m.t };
			m.ls.push(l);
			for (let i = 0; i < seeds; i++) l.items.push({ n: free(items(m).map(x => x.n), 'I'), title: 'seed' + i, desc: 'sd', status: 'pending', tags: ['t'], meta: { a: 1 }, done: false, cs: [] });
			return { r: 'ok', ev: [['listCreated', vl(l)]], val: vl(l) };
		});
}
create('brainstorm', 'S1', null, null, 0); create('brainstorm', 'S1', null, null, 2); create('planner', 'S2', null, 'planner', 1); create('user', 'S1', null, 'user', 0);
create('user', 'S1', null, 'brainstorm', 0); create('user', 'S1', null, null, 0); create('brainstorm', 'S1', null, 'user', 0); create('brainstorm', 'S1', null, 'planner', 1); create('system', 'S1', null, 'brainstorm', 0); create('system', 'S2', null, null, 0);
for (const p of LN) { create('brainstorm', 'S1', p, null, 0); create('planner', 'S2', p, 'planner', 0); }
const onList = (name: string, fn: string, extra: any, apply: (m: M, l: ML, who: Caller) => Out | null, ok?: (m: M, n: string) => boolean): void => {
	for (const n of LN) for (const who of AG) add(`${who}.${name}(${n})`, fn, (m, id) => (L(m, n) && (ok?.(m, n) ?? true) ? { ...c(who), listId: id(n), ...(typeof extra === 'function' ? extra(id) : extra) } : null), m => { const [l, e] = guard(m, n, who); if (e) return e; return apply(m, l!, who)!; });
};
/** sub-lists of a deleted list stay in their session (what their parent then reads as is not specified) */
const orphaned = (m: M): void => { for (const l of m.ls) if (l.parent !== null && !L(m, l.parent)) l.parent = 'gone'; };
const touched = (m: M, l: ML, kind = 'listUpdated'): Out => { l.u = m.t; return { r: 'ok', ev: [[kind, vl(l)]], val: vl(l) }; };
const setStatus = (m: M, l: ML, to: string, kind: string): Out => { if (l.status !== to && !LT[l.status]!.includes(to)) return err('invalid_transition'); l.status = to; return touched(m, l, kind); };
onList('rename', 'update', { patch: { title: 'renamed', description: 'D2' } }, (m, l) => { l.title = 'renamed'; l.desc = 'D2'; return touched(m, l); });
onList('body', 'update', { patch: { body: 'B2' } }, (m, l) => { l.body = 'B2'; return touched(m, l); });
for (const st of ['active', 'completed', 'archived']) onList('status ' + st, 'update', { patch: { status: st, title: 'S' } }, (m, l) => { if (l.status !== st && !LT[l.status]!.includes(st)) return err('invalid_transition'); l.title = 'S'; return setStatus(m, l, st, 'listUpdated'); });
onList('archive', 'archive', {}, (m, l) => setStatus(m, l, 'archived', 'listArchived'));
onList('unarchive', 'unarchive', {}, (m, l) => setStatus(m, l, 'active', 'listUpdated'));
for (const to of ['planner', 'brainstorm']) onList('transfer to ' + to, 'transfer', { to, reason: 'why' }, (m, l, who) => { l.tr.push([l.owner, to, 'why', who]); l.owner = to; return touched(m, l); }, (m, n) => L(m, n)!.tr.length < 3);
for (const to of ['user', 'nobody']) for (const n of LN) add(`brainstorm.transfer to ${to}(${n})`, 'transfer', (m, id) => (L(m, n) ? { caller: 'brainstorm', listId: id(n), to, reason: 'r' } : null), () => err('invalid_owner'));
for (const p of [null, ...LN]) onList('reparent under ' + p, 'reparent', (id: any) => ({ newParentListId: p === null ? null : id(p) }), (m, l) => {
	if (p !== null) { if (L(m, p)!.s !== l.s) return err('invalid_parent'); for (let x: string | null = p; x; x = L(m, x)!.parent) if (x === l.n) return err('invalid_parent'); }
	l.parent = p; return touched(m, l);
}, m => p === null || (!!L(m, p) && chainOk(m, p)));
const addAt = (m: M, l: ML, at: number): Out => { const it: MI = { n: free(items(m).map(x => x.n), 'I'), title: 'item', desc: 'd', status: 'pending', tags: ['x'], meta: { k: 1 }, done: false, cs: [] }; l.items.splice(at, 0, it); return { r: 'ok', ev: [['itemCreated', vl(l)]], val: vi(it, false) }; };
onList('addItem', 'addItem', { title: 'item', description: 'd', tags: ['x', 1], meta: { k: 1 } }, (m, l) => addAt(m, l, l.items.length), m => items(m).length < MAXI);
for (const a of IN) onList('addItem after ' + a, 'addItem', (id: any) => ({ title: 'item', description: 'd', tags: ['x'], meta: { k: 1 }, insertAfterItemId: id(a) }), (m, l) => { const k = l.items.findIndex(i => i.n === a); return k < 0 ? err('invalid_ids') : addAt(m, l, k + 1); }, m => items(m).length < MAXI && items(m).some(i => i.n === a));
onList('clearCompleted', 'clearCompleted', {}, (_m, l) => { l.items = l.items.filter(i => !TERM.includes(i.status)); return { r: 'ok', ev: [['listUpdated', vl(l)]], val: vl(l) }; });
onList('deleteList', 'deleteList', {}, (m, l) => { const v = vl(l); m.ls = m.ls.filter(x => x !== l); orphaned(m); return { r: 'ok', ev: [['listDeleted', v]] }; });
const onItem = (name: string, fn: string, extra: any, apply: (m: M, l: ML, i: MI) => Out, ok?: (m: M, i: string) => boolean): void => {
	for (const n of IN) for (const who of AG) add(`${who}.${name}(${n})`, fn, (m, id) => (holder(m, n) && (ok?.(m, n) ?? true) ? { ...c(who), itemId: id(n), ...(typeof extra === 'function' ? extra(id) : extra) } : null), m => { const h = holder(m, n)!; const [l, e] = guard(m, h.n, who); if (e) return e; return apply(m, l!, l!.items.find(x => x.n === n)!); });
};
const itemDone = (m: M, l: ML, i: MI): Out => { const ev: Ev[] = [['itemUpdated', vl(l)]]; const val = vi(i, false); if (l.status === 'active' && l.items.every(x => TERM.includes(x.status))) { l.status = 'completed'; l.u = m.t; ev.push(['listUpdated', vl(l)]); } return { r: 'ok', ev, val }; };
const st = (name: string, patch: any, to: string): void => onItem(name, 'updateItem', { patch }, (m, l, i) => {
	if (i.status !== to && !IT[i.status]!.includes(to)) return err('invalid_transition');
	if (to === 'blocked' && !((patch.blockedReason ?? i.reason ?? '') as string).trim()) return err('invalid_transition');
	i.status = to; if (patch.blockedReason !== undefined) i.reason = patch.blockedReason; if (to === 'completed') i.done = true; return itemDone(m, l, i);
});
for (const to of ['pending', 'in_progress', 'completed', 'cancelled']) st('item ' + to, { status: to }, to);
st('item blocked(why)', { status: 'blocked', blockedReason: 'why' }, 'blocked'); st('item blocked(blank)', { status: 'blocked', blockedReason: '  ' }, 'blocked');
onItem('item edit', 'updateItem', { patch: { title: 'T2', description: 'd2', tags: ['y'], meta: { z: 2 } } }, (m, l, i) => { i.title = 'T2'; i.desc = 'd2'; i.tags = ['y']; i.meta = { z: 2 }; return itemDone(m, l, i); });
const move = (l: ML, i: MI, after: string | null): Out => { const rest = l.items.filter(x => x !== i); const k = after === null ? 0 : rest.findIndex(x => x.n === after) + 1; if (after !== null && k === 0) return err('invalid_ids'); rest.splice(k, 0, i); l.items = rest; return { r: 'ok', ev: [['itemUpdated', vl(l)]], val: vi(i, false) }; };
for (const a of [null, ...IN]) onItem('move after ' + a, 'reorderItem', (id: any) => ({ insertAfterItemId: a === null ? null : id(a) }), (_m, l, i) => move(l, i, a), m => a === null || !!holder(m, a));
onItem('removeItem', 'removeItem', {}, (_m, l, i) => { l.items = l.items.filter(x => x !== i); return { r: 'ok', ev: [['itemRemoved', vl(l)]] }; });
for (const n of IN) for (const who of ['user', 'brainstorm'] as Caller[]) add(`${who}.addComment(${n})`, 'addComment', (m, id) => (holder(m, n) && comments(m).length < 2 ? { ...c(who), itemId: id(n), body: 'hi' } : null), m => { const l = holder(m, n)!; const k: MC = { n: free(comments(m).map(x => x.n), 'K'), author: who, body: 'hi', ack: false, edited: false }; l.items.find(x => x.n === n)!.cs.push(k); return { r: 'ok', ev: [['commentAdded', vl(l)]], val: vc(k) }; });
for (const n of KN) for (const who of AG) {
	add(`${who}.editComment(${n})`, 'editComment', (m, id) => (holderC(m, n) ? { ...c(who), commentId: id(n), body: 'edited' } : null), m => { const [l, , k] = holderC(m, n)!; if (k.author !== who) return err('comment_author_mismatch'); k.body = 'edited'; k.edited = true; return { r: 'ok', ev: [['commentUpdated', vl(l)]], val: vc(k) }; });
	add(`${who}.deleteComment(${n})`, 'deleteCommentRpc', (m, id) => (holderC(m, n) ? { ...c(who), commentId: id(n) } : null), m => { const [l, i, k] = holderC(m, n)!; if (k.author !== who) return err('comment_author_mismatch'); i.cs = i.cs.filter(x => x !== k); return { r: 'ok', ev: [['commentRemoved', vl(l)]] }; });
	add(`${who}.ackComment(${n})`, 'ackComment', (m, id) => (holderC(m, n) ? { ...c(who), commentId: id(n) } : null), m => { const [l, , k] = holderC(m, n)!; if (who === 'user' || who === 'system' || l.owner !== who) return err('comment_ack_not_owner'); k.ack = true; return { r: 'ok', ev: [['commentUpdated', vl(l)]], val: vc(k) }; });
}
const clean = (name: string, params: any, sel: ((m: M, l: ML) => boolean) | null, why = 'invalid_cleanup_query'): void => {
	for (const dry of [false, true]) add(`cleanup${dry ? '(dry)' : ''} ${name}`, 'cleanup', () => ({ ...params, ...(dry ? { dryRun: true } : {}) }), m => {
		if (!sel) return err(why);
		const hit = m.ls.filter(l => sel(m, l)); const nI = hit.reduce((a, l) => a + l.items.length, 0);
		const ev: Ev[] = dry ? [] : hit.map(l => ['listDeleted', vl(l)]);
		if (!dry) { m.ls = m.ls.filter(l => !hit.includes(l)); orphaned(m); }
		return { r: 'ok', ev, val: { deletedListCount: hit.length, deletedItemCount: nI, dryRun: dry } };
	});
};
clean('session S1 by user', { sessionIds: ['S1'] }, (_m, l) => l.s === 'S1');
clean('session S1 twice by planner', { caller: 'planner', sessionIds: ['S1', 'S1'] }, (_m, l) => l.s === 'S1');
clean('archived by system', { caller: 'system', statuses: ['archived'] }, (_m, l) => l.status === 'archived');
clean('S1 completed/archived from brainstorm', { caller: 'system', sessionIds: ['S1'], statuses: ['completed', 'archived'], sources: ['brainstorm'] }, (_m, l) => l.s === 'S1' && l.status !== 'active' && l.source === 'brainstorm');
clean('sources planner', { caller: 'system', sources: ['planner'] }, (_m, l) => l.source === 'planner');
clean('archived older than 90 days', { caller: 'system', statuses: ['archived'], olderThanDays: 90 }, (m, l) => l.status === 'archived' && m.t - l.u > 90 * DAY);
clean('S1 updated before 2026-02', { caller: 'system', sessionIds: ['S1', 'S2'], updatedBefore: '2026-02-01T00:00:00.000Z' }, (_m, l) => l.u < Date.UTC(2026, 1, 1));
clean('everything', { caller: 'system' }, null); clean('empty filters', { caller: 'system', sessionIds: [], statuses: [], sources: [] }, null); clean('only old', { caller: 'system', olderThanDays: 1 }, null);
clean('user by status', { statuses: ['archived'] }, null); clean('user S1 by status', { sessionIds: ['S1'], statuses: ['active'] }, null); clean('planner by source', { caller: 'planner', sources: ['planner'] }, null); clean('user S1 old', { sessionIds: ['S1'], olderThanDays: 0 }, null); clean('bad status', { caller: 'system', statuses: ['gone'] }, null, 'invalid_status');
OPS.push({ name: 'wait 100 days', fn: '', params: () => ({}), spec: m => { m.t += 100 * DAY; return { r: 'ok', ev: [] }; } });
const WAIT = OPS.length - 1;

// ---- the real system
let rpc: any, ctx: Ctx, events: any[] = [];
const nameOf = (ids: Record<string, string>): ((id: string | undefined) => any) => { const r = new Map(Object.entries(ids).map(([n, i]) => [i, n])); return id => (id === undefined ? null : r.get(id) ?? '?' + id); };
const pc = (k: any, nm: any): any => ({ n: nm(k.id), author: k.author, body: k.body, ack: k.agentAcknowledged === true, edited: k.editedAt !== undefined });
const pi = (i: any, nm: any, withC = true): any => ({ n: nm(i.id), title: i.title, desc: i.description ?? null, status: i.status, reason: i.status === 'blocked' ? i.blockedReason : null, tags: i.tags ?? [], meta: i.meta ?? {}, done: i.completedAt !== undefined, ...(withC ? { cs: (i.comments ?? []).map((k: any) => pc(k, nm)) } : {}) });
const pl = (l: any, nm: any): any => ({ n: nm(l.id), s: l.sessionId, parent: l.parentListId === undefined ? null : String(nm(l.parentListId)).startsWith('?') ? 'gone' : nm(l.parentListId), title: l.title, desc: l.description ?? null, body: l.body ?? null, status: l.status, owner: l.owner, source: l.source, tr: l.transfers.map((t: any) => [t.from, t.to, t.reason, t.initiator ?? t.from]), items: l.items.map((i: any) => pi(i, nm)) });
const code = (r: any): string => (r && typeof r === 'object' && 'error' in r ? r.error : 'ok');
async function call(fn: string, params: any): Promise<any> { return rpc[fn](null, params); }
/** what each reader sees */
async function observed(nm: any): Promise<any> {
	const o: any = {};
	for (const s of ['S1', 'S2', 'S']) for (const [k, p] of [['user', {}], ['user+', { includeArchived: true }], ['planner+', { caller: 'planner', includeArchived: true }]] as const) o[`${s} ${k}`] = (await call('listForSession', { sessionId: s, ...p })).map((l: any) => pl(l, nm));
	return o;
}
function predicted(m: M): any {
	const o: any = {};
	const ord = (a: ML, b: ML): number => (a.parent === null ? 0 : 1) - (b.parent === null ? 0 : 1) || a.born - b.born;
	for (const s of ['S1', 'S2', 'S']) { const all = m.ls.filter(l => l.s === s).sort(ord); o[`${s} user`] = all.filter(l => l.status !== 'archived').map(vl); o[`${s} user+`] = all.map(vl); o[`${s} planner+`] = all.filter(l => l.owner !== 'user').map(vl); }
	return o;
}
const keyOf = (m: M): string => canon([...m.ls].sort((a, b) => a.born - b.born).map(l => ({ ...vl(l), r: l.items.map(i => i.reason ?? ''), old: l.status === 'archived' || l.u < Date.UTC(2026, 1, 1) ? m.t - l.u > 90 * DAY : 0, feb: l.u < Date.UTC(2026, 1, 1) }))) + (m.t > Date.UTC(2026, 1, 1));
const live = (m: M): Set<string> => new Set([...m.ls.map(l => l.n), ...items(m).map(i => i.n), ...comments(m).map(k => k.n)]);
const evs = (n: any): any[] => events.map(e => [e.kind, pl(e.list, n)]);
/** names of things created by the last call */
function learn(m: M, before: M, ids: Record<string, string>, res: any): void {
	if (!res || typeof res !== 'object' || res.error) return;
	const b = live(before); const fresh = [...live(m)].filter(n => !b.has(n) || !ids[n]);
	for (const n of fresh) {
		if (n[0] === 'L') ids[n] = res.id;
		else if (n[0] === 'K') ids[n] = res.id;
		else if (res.items !== undefined) ids[n] = res.items[fresh.filter(x => x[0] === 'I').indexOf(n)]?.id; else ids[n] = res.id;
	}
	for (const n of Object.keys(ids)) if (!live(m).has(n)) delete ids[n];
}
async function setup(): Promise<void> {
	ctx = await openCtx(); globalThis.Date = VDate as any;
	rpc = await repo('src/daemon/todos-rpc.ts');
	rpc.subscribeToTodosBus((e: any) => events.push(structuredClone(e)));
	restore(ctx, { db: {}, lance: {} });
}
/** run one operation on the real code and compare it with the specification */
async function step(m0: M, ids0: Record<string, string>, op: Op): Promise<{ m: M; ids: Record<string, string>; bad: string | null; r: string }> {
	const m = structuredClone(m0); const ids = { ...ids0 };
	const p = op.params(m0, n => ids[n] ?? 'no-such-' + n);
	clock += 1000; m.t = clock; const want = op.spec(m);
	if (op.fn === '') { clock = m.t; return { m, ids, bad: null, r: 'ok' }; }
	events = [];
	let res: any; try { res = await call(op.fn, p); } catch (e) { return { m, ids, bad: `threw ${(e as Error).message}`, r: 'throw' }; }
	const got = code(res);
	if (got !== want.r) return { m, ids, bad: `answered '${got}', expected '${want.r}'`, r: got };
	const before = nameOf(ids); void before;
	const oldIds = { ...ids }; learn(m, m0, ids, res); const nm = nameOf({ ...oldIds, ...ids });
	const e = evs(nm);
	if (canon(e) !== canon(want.ev) && !(op.fn === 'cleanup' && canon([...e].sort((a, b) => (a[1].n < b[1].n ? -1 : 1))) === canon([...want.ev].sort((a, b) => (a[1].n < b[1].n ? -1 : 1))))) return { m, ids, bad: `events ${canon(e)} but expected ${canon(want.ev)}`, r: got };
	if (want.val !== undefined) {
		const v = op.fn === 'cleanup' ? res : res.transfers ? pl(res, nm) : res.itemId ? pc(res, nm) : pi(res, nm, false);
		if (canon(v) !== canon(want.val)) return { m, ids, bad: `returned ${canon(v)} but expected ${canon(want.val)}`, r: got };
	}
	const o = await observed(nameOf(ids)), q = predicted(m);
	for (const k of Object.keys(q)) if (canon(o[k]) !== canon(q[k])) return { m, ids, bad: `afterwards '${k}' lists ${canon(o[k])} but expected ${canon(q[k])}`, r: got };
	return { m, ids, bad: null, r: got };
}
const byName = (n: string): Op => { const o = OPS.find(x => x.name === n); if (!o) throw new Error('no op ' + n); return o; };
const ROOTS: Record<string, string[]> = {
	empty: [],
	tree: ['brainstorm.create(S1,items2)', 'brainstorm.create(S1,under L1)', 'user.create(S1,owner user)', 'user.addComment(I1)', 'brainstorm.addComment(I1)'],
	worked: ['brainstorm.create(S1,items2)', 'planner.create(S2,owner planner,items1)', 'brainstorm.item in_progress(I1)', 'brainstorm.item cancelled(I2)', 'user.addComment(I2)'],
	shared: ['brainstorm.create(S1,items2)', 'brainstorm.create(S1)', 'brainstorm.transfer to planner(L2)', 'brainstorm.archive(L1)', 'brainstorm.item in_progress(I1)', 'brainstorm.item blocked(why)(I1)'],
	aged: ['brainstorm.create(S1,items2)', 'brainstorm.archive(L1)', 'wait 100 days', 'brainstorm.create(S1)', 'brainstorm.archive(L2)', 'brainstorm.create(S1,under L2)'],
};
async function build(names: string[]): Promise<{ n: Node; bad: string | null }> {
	restore(ctx, { db: {}, lance: {} }); clock = Date.UTC(2026, 0, 1);
	let m: M = { ls: [], t: clock, seq: 0 }, ids: Record<string, string> = {};
	for (const x of names) { const r = await step(m, ids, byName(x)); if (r.bad) return { n: { d: dump(ctx), m, ids, clock }, bad: `${x}: ${r.bad}` }; m = r.m; ids = r.ids; }
	return { n: { d: dump(ctx), m, ids, clock }, bad: null };
}
class TodoDomain implements Domain<Node> {
	async init(): Promise<void> { await setup(); }
	opName(i: number): string { return OPS[i]!.name; }
	async roots() { const out = []; for (const [name, ops] of Object.entries(ROOTS)) { const { n, bad } = await build(ops); out.push({ name, state: n, key: keyOf(n.m), ...(bad ? { viol: { key: `root:${name}`, what: bad } } : {}) }); } return out; }
	async expand(n: Node): Promise<Succ<Node>[]> {
		const out: Succ<Node>[] = []; restore(ctx, n.d); const base = canon(n.d.db); let dirty = false;
		for (let i = 0; i < OPS.length; i++) {
			const op = OPS[i]!; if (op.params(n.m, x => x) === null) continue;
			if (dirty) { restore(ctx, n.d); dirty = false; } clock = n.clock;
			const r = await step(n.m, n.ids, op);
			if (r.bad) { out.push({ op: i, state: null, key: '', viol: { key: `op:${op.fn}:${r.bad.replace(/[?0-9a-f]{8,}|[{[].*/g, '').slice(0, 60)}`, what: `${op.name}: ${r.bad}` } }); dirty = true; continue; }
			if (r.r !== 'ok' || (op.fn === 'cleanup' && op.name.includes('(dry)'))) {
				if (canon(dump(ctx).db) !== base) { out.push({ op: i, state: null, key: '', viol: { key: `rejectwrite:${op.fn}`, what: `${op.name} was refused (or a dry run) but changed stored data` } }); dirty = true; } else out.push({ op: i, state: null, key: '' });
				continue;
			}
			dirty = true;
			const d = dump(ctx);
			// no orphans, no unreachable rows
			const count = (k: string): number => d.db[k]!.length;
			if (count('todo_list') !== r.m.ls.length || count('todo_list_by_session') !== r.m.ls.length || count('todo_item') !== items(r.m).length || count('todo_comment') !== comments(r.m).length) out.push({ op: i, state: null, key: '', viol: { key: `orphan:${op.fn}`, what: `${op.name} left ${count('todo_list')} list, ${count('todo_list_by_session')} index, ${count('todo_item')} item and ${count('todo_comment')} comment rows for ${r.m.ls.length} lists, ${items(r.m).length} items, ${comments(r.m).length} comments` } });
			out.push({ op: i, state: { d, m: r.m, ids: r.ids, clock }, key: keyOf(r.m) });
		}
		return out;
	}
}
// ---- part 2: two or three calls at once
const PAR: Record<string, string[]> = {
	tree: ['brainstorm.rename(L1)', 'brainstorm.body(L1)', 'brainstorm.archive(L1)', 'brainstorm.transfer to planner(L1)', 'brainstorm.transfer to brainstorm(L1)', 'brainstorm.reparent under L2(L1)', 'brainstorm.reparent under null(L2)', 'brainstorm.reparent under L1(L2)', 'brainstorm.addItem(L1)', 'brainstorm.addItem after I1(L1)', 'brainstorm.item in_progress(I1)', 'brainstorm.item cancelled(I1)', 'brainstorm.item edit(I1)', 'brainstorm.move after I2(I1)', 'brainstorm.move after null(I2)', 'brainstorm.removeItem(I1)', 'brainstorm.deleteList(L1)', 'brainstorm.clearCompleted(L1)', 'user.addComment(I1)', 'user.editComment(K1)', 'user.deleteComment(K1)', 'brainstorm.ackComment(K1)', 'cleanup session S1 by user', 'brainstorm.create(S1,under L2)', 'brainstorm.create(S1)'],
	worked: ['brainstorm.item completed(I1)', 'brainstorm.item cancelled(I1)', 'brainstorm.item blocked(why)(I1)', 'brainstorm.item edit(I2)', 'brainstorm.addItem(L1)', 'brainstorm.clearCompleted(L1)', 'brainstorm.archive(L1)', 'brainstorm.status completed(L1)', 'brainstorm.removeItem(I2)', 'brainstorm.deleteList(L1)', 'cleanup archived by system'],
};
async function concurrent(chk: Check, mine: (i: number) => boolean): Promise<void> {
	await setup();
	let gate: Sched | null = null;
	for (const k of ['childTransaction', 'transaction']) { const o = ctx.root[k].bind(ctx.root); ctx.root[k] = (...a: any[]) => (gate ? gate.gated(`txn`, () => o(...a)) : o(...a)); }
	MAXL = 9; MAXI = 9; let w = 0;
	for (const [rootName, opsN] of Object.entries(PAR)) {
		const { n } = await build(ROOTS[rootName]!);
		const ops = opsN.map(byName);
		const groups: number[][] = [];
		for (let a = 0; a < ops.length; a++) for (let b = a; b < ops.length; b++) groups.push([a, b]);
		if (THOROUGH) for (let a = 0; a < ops.length; a++) for (let b = a; b < ops.length; b++) for (let d = b; d < ops.length; d++) groups.push([a, b, d]);
		for (const g of groups) {
			if (!mine(w++)) continue;
			const names = g.map(i => ops[i]!.name);
			/** anonymous new ids: compare by content */
			const view = async (): Promise<any> => { const nm = nameOf(n.ids); const o = await observed((id: string | undefined) => { const x = nm(id); return typeof x === 'string' && x[0] === '?' ? '?new' : x; }); const srt: any = {}; for (const k of Object.keys(o)) srt[k] = o[k]; return srt; };
			const counts = (): string => canon(['todo_list', 'todo_list_by_session', 'todo_item', 'todo_comment'].map(k => dump(ctx).db[k]!.length));
			const cache = async (): Promise<string | null> => { const last = new Map<string, any>(); for (const e of events) last.set(e.list.id, e.kind === 'listDeleted' ? null : e.list); for (const [id, l] of last) { const cur = [...await call('listForSession', { sessionId: 'S1', includeArchived: true }), ...await call('listForSession', { sessionId: 'S2', includeArchived: true })].find((x: any) => x.id === id) ?? null; if (canon(cur) !== canon(l)) return `the last event for a list shows ${canon(l && pl(l, nameOf(n.ids)))} but it is ${canon(cur && pl(cur, nameOf(n.ids)))}`; } return null; };
			const allowed = new Set<string>(); const perms = (a: number[]): number[][] => (a.length < 2 ? [a] : a.flatMap((x, i) => perms([...a.slice(0, i), ...a.slice(i + 1)]).map(r => [x, ...r])));
			gate = null;
			for (const ord of perms(g.map((_, i) => i))) {
				restore(ctx, n.d); clock = n.clock; events = []; const rs: string[] = [];
				for (const i of ord) { clock += 1000; const op = ops[g[i]!]!; try { rs[i] = code(await call(op.fn, op.params(n.m, x => n.ids[x] ?? 'no-such-' + x))); } catch (e) { rs[i] = 'threw'; } }
				allowed.add(canon([rs, await view(), counts()]));
				const b = await cache(); if (b) chk.violation('cache', `${ord.map(i => names[i]).join(' then ')}: ${b}`, { root: rootName, order: ord.map(i => names[i]) });
			}
			const { runs } = await allSchedules(async choices => {
				restore(ctx, n.d); clock = n.clock + 1000; events = [];
				const s = new Sched(); gate = s; const rs: string[] = []; let fin = 0;
				g.forEach((oi, i) => { void s.point(`start ${i}`).then(async () => { clock += 1; const op = ops[oi]!; try { rs[i] = code(await call(op.fn, op.params(n.m, x => n.ids[x] ?? 'no-such-' + x))); } catch { rs[i] = 'threw'; } fin++; }); });
				const r = await runSchedule(s, () => fin === g.length, choices, 12); gate = null;
				chk.transitions++; if (r.widths.some(x => x > 1)) chk.nontrivial++;
				if (r.stuck) { chk.violation('stuck', `${names.join(' || ')}: never completed`, { root: rootName, schedule: r.trace }); return r; }
				const got = canon([rs, await view(), counts()]);
				if (!allowed.has(got)) chk.violation('notserial', `${names.join(' || ')}: results ${canon(rs)} and final lists ${got.slice(0, 1200)} match no order of running them one after another`, { root: rootName, ops: names, schedule: r.trace });
				const b = await cache(); if (b) chk.violation('cache', `${names.join(' || ')}: ${b}`, { root: rootName, ops: names, schedule: r.trace });
				return r;
			}, 400);
			chk.evaluations += runs; chk.states++;
		}
	}
	// ---- part 3: limits and long placements
	const fresh = async (): Promise<string> => { restore(ctx, { db: {}, lance: {} }); clock += 1000; return (await call('create', { caller: 'brainstorm', sessionId: 'S', title: 'x' })).id; };
	const one = (k: number): boolean => mine(k);
	if (one(0)) {
		const sz = (n: number, ch: string): string => ch.repeat(Math.floor(n / Buffer.byteLength(ch))) + 'a'.repeat(n % Buffer.byteLength(ch));
		for (const ch of ['a', 'é', '€', '😀']) {
			const l = await fresh(); const it = (await call('addItem', { caller: 'brainstorm', listId: l, title: 't' })).id; const k = (await call('addComment', { itemId: it, body: 'b' })).id;
			const cases: [string, number, string, (t: string) => any][] = [
				['list body at creation', 32768, 'create', t => ({ caller: 'brainstorm', sessionId: 'S', title: 'x', body: t })], ['list body', 32768, 'update', t => ({ caller: 'brainstorm', listId: l, patch: { body: t } })],
				['item description at creation', 8192, 'addItem', t => ({ caller: 'brainstorm', listId: l, title: 't', description: t })], ['item description', 8192, 'updateItem', t => ({ caller: 'brainstorm', itemId: it, patch: { description: t } })],
				['comment', 8192, 'addComment', t => ({ itemId: it, body: t })], ['comment edit', 8192, 'editComment', t => ({ commentId: k, body: t })]];
			for (const [what, lim, fn, p] of cases) for (const d of [-1, 0, 1, 5]) {
				const before = canon(dump(ctx).db); const r = code(await call(fn, p(sz(lim + d, ch)))); chk.evaluations++;
				if (r !== (d > 0 ? 'field_too_large' : 'ok')) chk.violation(`limit:${fn}`, `${what} of ${lim + d} bytes ('${ch}') answered '${r}'`, { what, bytes: lim + d });
				if (d > 0 && canon(dump(ctx).db) !== before) chk.violation(`limitwrite:${fn}`, `${what} of ${lim + d} bytes was refused but stored something`, { what });
			}
		}
	}
	if (one(1)) {
		const l = await fresh(); for (let i = 0; i < 205; i++) { const r = code(await call('addItem', { caller: 'brainstorm', listId: l, title: 't' + i })); chk.evaluations++; if (r !== (i < 200 ? 'ok' : 'list_full')) { chk.violation('maxitems', `adding item number ${i + 1} answered '${r}'`, { i }); break; } }
		const [x] = await call('listForSession', { sessionId: 'S' }); if (x.items.length !== 200 || x.items.some((it: any, i: number) => it.title !== 't' + i)) chk.violation('maxitems', `a full list holds ${x.items.length} items or not in insertion order`, {});
	}
	if (one(2)) {
		await fresh(); for (let i = 1; i < 53; i++) { const r = code(await call('create', { caller: 'brainstorm', sessionId: 'S', title: 'x' })); chk.evaluations++; if (r !== (i < 50 ? 'ok' : 'session_full')) { chk.violation('maxlists', `creating list number ${i + 1} answered '${r}'`, { i }); break; } }
		if (code(await call('create', { caller: 'brainstorm', sessionId: 'S2', title: 'x' })) !== 'ok') chk.violation('maxlists', 'a full session blocks another session', {});
	}
	if (one(3)) for (const n2 of [200, 201]) {
		await fresh(); const b = dump(ctx); events = []; const r = code(await call('create', { caller: 'brainstorm', sessionId: 'S', title: 'x', items: Array.from({ length: n2 }, (_, i) => ({ title: 's' + i })) })); chk.evaluations++;
		if (r !== (n2 > 200 ? 'list_full' : 'ok')) chk.violation('seedlimit', `seeding ${n2} items answered '${r}'`, { n2 });
		if (n2 > 200 && (canon(dump(ctx).db) !== canon(b.db) || events.length)) chk.violation('seedlimit', `seeding ${n2} items was refused but left data or events behind`, { n2 });
	}
	// repeated insertion/moving into one gap must keep the requested order, whatever the number of repetitions
	const plans: [string, (ord: string[], k: number) => [string, string | null]][] = [['insert after the first', o => ['add', o[0]!]], ['insert after the last but one', o => ['add', o[o.length - 2]!]], ['alternate the two halves of the gap', (o, k) => ['add', o[k % 2 ? Math.floor(o.length / 2) : 0]!]], ['move the last one behind the first', o => ['move:' + o[o.length - 1]!, o[0]!]], ['move the second behind the third', o => ['move:' + o[1]!, o[2]!]], ['move the last to the front', o => ['move:' + o[o.length - 1]!, null]]];
	for (let pi2 = 0; pi2 < plans.length; pi2++) {
		if (!one(4 + pi2)) continue; const [what, f] = plans[pi2]!; const l = await fresh(); let ord: string[] = [];
		for (let i = 0; i < 4; i++) { clock += 1000; ord.push((await call('addItem', { caller: 'brainstorm', listId: l, title: 't' })).id); }
		for (let k = 0; k < 180; k++) {
			clock += 1000; const [a, after] = f(ord, k); let id: string;
			if (a === 'add') id = (await call('addItem', { caller: 'brainstorm', listId: l, title: 't', insertAfterItemId: after })).id; else { id = a.slice(5); await call('reorderItem', { caller: 'brainstorm', itemId: id, insertAfterItemId: after }); ord = ord.filter(x => x !== id); }
			ord.splice(after === null ? 0 : ord.indexOf(after) + 1, 0, id); chk.evaluations++;
			const got = (await call('listForSession', { sessionId: 'S' }))[0].items.map((i: any) => i.id);
			if (canon(got) !== canon(ord)) { chk.violation('order', `${what}, repetition ${k + 1}: the list order is not the requested one (position ${got.findIndex((x: string, j: number) => x !== ord[j])})`, { what, k }); break; }
		}
	}
}
const dom = new TodoDomain();
if (isWorker) await serveWorker(dom);
else main(async () => {
	const chk = new Check('C09', 'model_checking');
	chk.assumptions.push('virtual clock: every call happens at its own instant', 'interleavings are explored at call starts and write transactions');
	await chk.sharded(m => concurrent(chk, m));
	if (SHARD < 0) {
		const conc = { groups: chk.states, schedules: chk.transitions };
		await explore(chk, dom, { depth: THOROUGH ? 5 : 2, maxMs: THOROUGH ? 500_000 : 45_000 });
		chk.extra['concurrency'] = conc; chk.extra['operations'] = OPS.length; chk.evaluations += chk.transitions;
		chk.rule = 'every todo RPC by every caller on every reachable list/item/comment of the explored states against the specification, with all readers, return values and events; every pair (thorough: triple) of 25 calls under every interleaving of their transactions';
		chk.finish();
	}
});
void WAIT;
