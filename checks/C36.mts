// C36: data source connections — every interleaving of questions, edits, idle closing, failures and shutdown hands out only live drivers of the connection
// configured at the time, opens each once and closes each in the end; every history of saves and deletes keeps the list and the secrets exactly.
import { createRequire, syncBuiltinESMExports } from 'node:module';
import * as fs from 'node:fs';
import { join } from 'node:path';
import { Check, main, THOROUGH, SCRATCH, repo, sequences, product } from '../lib/mc.mts';
import { Sched, runSchedule, allSchedules, type RunResult } from '../lib/sched.mts';

// ---- file system: every promise operation counts as in flight; reads of the connections file and path probes are scheduling points
let S: Sched | null = null;
let gateIo = true;
let queue: Promise<unknown> = Promise.resolve(); // one real operation at a time, so that replays are deterministic
const P = fs.promises as any;
for (const name of ['readFile', 'writeFile', 'mkdir', 'rename', 'rm', 'access', 'stat', 'unlink', 'open', 'copyFile']) {
	const real = P[name];
	P[name] = function (...a: any[]) {
		const s = S;
		if (!s) return real.apply(P, a);
		const isConf = (name === 'readFile' || name === 'rename') && a.some((x: any) => typeof x === 'string' && x.endsWith('db-connections.json'));
		const op = (): Promise<any> => { s.inflight++; const r = queue.then(() => real.apply(P, a)); queue = r.then(() => undefined, () => undefined); return r.finally(() => { s.inflight--; s.progress++; }); };
		if (name === 'writeFile' && typeof a[0] === 'string' && a[0].endsWith('db-connections.json')) { // not replaced as a whole: half of it is there first
			return s.point('io:write').then(() => { s.inflight++; return real.call(P, a[0], String(a[1]).slice(0, 20)); }).then(() => { s.inflight--; return s.point('io:write2'); }).then(op);
		}
		if (gateIo && (isConf || name === 'access')) return s.point('io:' + name).then(op);
		return op();
	};
}
syncBuiltinESMExports();
// ---- idle timers
interface Tm { fn: () => void; at: number; dead: boolean; unref(): Tm; ref(): Tm; hasRef(): boolean; [Symbol.toPrimitive](): number }
let vnow = 0; let timers: Tm[] = [];
const rST = globalThis.setTimeout, rCT = globalThis.clearTimeout;
(globalThis as any).setTimeout = (fn: any, ms = 0, ...a: any[]): any => {
	if (ms < 60_000) return rST(fn, ms, ...a);
	const t: Tm = { fn: () => fn(...a), at: vnow + ms, dead: false, unref() { return t; }, ref() { return t; }, hasRef: () => false, [Symbol.toPrimitive]: () => 0 };
	timers.push(t); return t;
};
(globalThis as any).clearTimeout = (t: any): void => { if (t && typeof t === 'object' && 'dead' in t) { t.dead = true; return; } rCT(t); };
const rDN = Date.now; Date.now = (): number => rDN() + vnow;
const advance = (ms: number): void => { const end = vnow + ms; for (;;) { const t = timers.filter(x => !x.dead && x.at <= end).sort((a, b) => a.at - b.at)[0]; if (!t) break; vnow = t.at; t.dead = true; t.fn(); } vnow = end; };

// ---- drivers
interface Drv { n: number; cfg: any; st: 'open' | 'closing' | 'closed'; closes: number; close(): Promise<void>; [k: string]: any }
let drivers: Drv[] = []; let opening = 0; let failOpen: (cfg: any) => boolean = () => false; let failClose = false; let factoryCalls: any[] = [];
const mkFactory = (): any => async (cfg: any): Promise<any> => {
	factoryCalls.push(cfg); opening++;
	try {
		if (S) await S.point('open:' + cfg.id + ':' + tag(cfg));
		if (failOpen(cfg)) throw new Error('cannot connect');
		const d: Drv = { n: drivers.length, cfg, st: 'open', closes: 0, config: cfg, kind: cfg.kind, family: cfg.family, async close() {
			d.closes++; if (d.st === 'open') d.st = 'closing';
			if (S) await S.point('close:' + cfg.id + ':' + tag(cfg)); d.st = 'closed';
			if (failClose) throw new Error('close failed');
		} };
		drivers.push(d); return d;
	} finally { opening--; }
};
const tag = (c: any): string => String(c.options?.v ?? c.url ?? '?');

await main(async () => {
	const chk = new Check('C36', 'model_checking');
	const PC: any = await repo('src/daemon/db/pool-cache.ts'), CF: any = await repo('src/daemon/db/config.ts'), RG: any = await repo('src/daemon/db/registry.ts'), RPC: any = await repo('src/daemon/db-rpc.ts'), SE: any = await repo('src/daemon/db/secrets.ts');
	for (const k of ['mcf', 'mcf2']) RG.registerDriver({ kind: k, family: 'file', factory: mkFactory() });
	RG.registerDriver({ kind: 'mcu', family: 'rdbms', factory: mkFactory() });
	const keys = new Map<string, string>();
	SE._setKeystoreForTests({ async getKey(n: string) { return keys.get(n) ?? null; }, async setKey(n: string, v: string) { keys.set(n, v); }, async deleteKey(n: string) { keys.delete(n); } });

	// =========================================================== (a) schedules of one pool
	chk.rule = 'For each set of two or three concurrent actors (questions about a connection, edits of it, its removal, a one-off registration, idle closing, a failing open, shutdown) every order of the points at which they wait (reading the list, probing the path, opening, closing) is executed on the real pool; drivers record when they were handed out, opened and closed and with which settings.';
	type Ver = { v: string | null; from: number; to: number };
	interface World { R: string; now: number; hist: Map<string, Ver[]>; shut: [number, number][]; bad: string[]; closedAll: boolean; failed: number; eph: Set<string>; idle: number }
	let wseq = 0;
	const conf = (id: string, v: string): any => ({ id, kind: 'mcf', family: 'file', path: 'd.csv', options: { v } });
	const file = (m: Map<string, string>): any => ({ connections: [...m].map(([id, v]) => conf(id, v)) });
	async function setAll(w: World, m: Map<string, string>, id: string, v: string | null, write?: () => Promise<any>): Promise<void> {
		const h = w.hist.get(id) ?? []; w.hist.set(id, h);
		const prev = h[h.length - 1]; const nv: Ver = { v, from: w.now++, to: Infinity }; h.push(nv);
		if (v === null) m.delete(id); else m.set(id, v);
		if (write) { const r = await write(); if (r.error) w.bad.push(`changing the list failed: ${r.error}`); } else await CF.saveConnections(w.R, file(m));
		if (prev) prev.to = w.now++;
	}
	async function ask(w: World, id: string, uses: string[]): Promise<void> {
		const t0 = w.now++; const before = w.failed;
		try {
			const pool = await PC.acquirePool(w.R); const d: Drv = await pool.acquire(id); const t1 = w.now++;
			if (d.st !== 'open') w.bad.push(`a question about '${id}' was handed a driver that was ${d.st}`);
			if (d.cfg.id !== id) w.bad.push(`a question about '${id}' was handed the driver of '${d.cfg.id}'`);
			const vs = w.hist.get(id) ?? [];
			if (!vs.some(x => x.v === d.cfg.options.v && x.from <= t1 && x.to >= t0)) w.bad.push(`a question about '${id}' was answered with settings ${d.cfg.options.v}, never in force while it ran`);
			uses.push(id + ':' + d.cfg.options.v);
		} catch (e: any) {
			const t1 = w.now++; const vs = w.hist.get(id) ?? [];
			const legit = vs.length === 0 || vs[0]!.from > t0 || vs.some(x => x.v === null && x.from <= t1 && x.to >= t0) || w.shut.some(([a, b]) => a <= t1 && b >= t0) || w.failed > before;
			if (!legit) w.bad.push(`a question about '${id}', configured all the time, failed: ${e.message}`);
			uses.push(id + ':err');
		}
	}
	type Actor = { name: string; run: (w: World, m: Map<string, string>, uses: string[]) => Promise<void> };
	const A = {
		ask: (id: string): Actor => ({ name: `ask(${id})`, run: (w, _m, u) => ask(w, id, u) }),
		ask2: (id: string): Actor => ({ name: `ask(${id})x2`, run: async (w, _m, u) => { await ask(w, id, u); await ask(w, id, u); } }),
		edit: (id: string, v: string): Actor => ({ name: `edit(${id},${v})`, run: async (w, m) => { await setAll(w, m, id, v); } }),
		editReload: (id: string, v: string): Actor => ({ name: `save(${id},${v})`, run: async (w, m) => { await setAll(w, m, id, v, () => RPC.saveConnectionRpc({ repoRoot: w.R, config: conf(id, v) })); } }),
		remove: (id: string): Actor => ({ name: `remove(${id})`, run: async (w, m) => { await setAll(w, m, id, null, () => RPC.deleteConnectionRpc({ repoRoot: w.R, id })); } }),
		eph: (id: string, v: string): Actor => ({ name: `register(${id},${v})`, run: async (w) => {
			const h = w.hist.get(id) ?? []; w.hist.set(id, h); const prev = h[h.length - 1]; const nv = { v, from: w.now++, to: Infinity }; h.push(nv); w.eph.add(id);
			const pool = await PC.acquirePool(w.R); await pool.registerEphemeral({ ...conf(id, v) }); if (prev) prev.to = w.now++;
		} }),
		idle: (): Actor => ({ name: 'idle', run: async w => { await S!.point('idle'); w.idle++; advance(24 * 3600_000); } }),
		shut: (): Actor => ({ name: 'shutdown', run: async w => { const x: [number, number] = [w.now++, Infinity]; w.shut.push(x); await PC.closeAll(); x[1] = w.now++; } }),
	};
	interface Scn { name: string; init: [string, string][]; warm: string[]; actors: Actor[]; fail?: number; closeFails?: boolean }
	const dirs = join(SCRATCH, 'r'); fs.mkdirSync(dirs, { recursive: true });
	async function schedule(sc: Scn, choices: number[]): Promise<RunResult> {
		const w: World = { R: join(dirs, 'w' + ++wseq), now: 0, hist: new Map(), shut: [], bad: [], closedAll: false, failed: 0, eph: new Set(), idle: 0 };
		fs.mkdirSync(w.R); fs.writeFileSync(join(w.R, 'd.csv'), 'a\n1\n');
		S = null; drivers = []; factoryCalls = []; timers = []; opening = 0; failClose = !!sc.closeFails; let left = 0; failOpen = () => false;
		PC._resetCacheForTests();
		const m = new Map<string, string>(); for (const [id, v] of sc.init) await setAll(w, m, id, v);
		if (!sc.init.length) await CF.saveConnections(w.R, file(m));
		const uses: string[] = []; for (const id of sc.warm) await ask(w, id, uses);
		left = sc.fail ?? 0; failOpen = () => { if (left > 0) { left--; w.failed++; return true; } return false; };
		const s = new Sched(); S = s; let running = sc.actors.length;
		for (const a of sc.actors) void (async () => { try { await a.run(w, m, uses); } catch (e: any) { w.bad.push(`${a.name} failed: ${e.message}`); } finally { running--; s.progress++; } })();
		const res = await runSchedule(s, () => running === 0, choices);
		// work nobody waits for (closing) is let finish
		const rest = async (): Promise<void> => { for (let i = 0; i < 50 && s.waiting.length; i++) { s.waiting.shift()!.open(); await s.settle(() => true); } };
		await rest();
		const ctx = (): any => ({ scenario: sc.name, actors: sc.actors.map(a => a.name), schedule: res.trace, uses, drivers: drivers.map(d => `${d.cfg.id}:${d.cfg.options.v} ${d.st} closed ${d.closes}x`) });
		if (res.stuck) w.bad.push('an actor waits for ever');
		// quiescence: one more look at the list, then nothing is open but at most one current driver per connection
		S = null;
		if (!w.shut.length) await PC.reloadAll();
		for (const d of drivers) {
			if (d.st === 'open') {
				const cur = w.hist.get(d.cfg.id)!; const v = cur[cur.length - 1]!.v;
				if (!w.shut.length && d.cfg.options.v !== v) w.bad.push(`a driver with the settings ${d.cfg.options.v} of '${d.cfg.id}' is still open, the connection is now ${v ?? 'removed'}`);
				if (drivers.some(o => o !== d && o.st === 'open' && o.cfg.id === d.cfg.id)) w.bad.push(`two drivers of '${d.cfg.id}' are open`);
			}
			if (d.closes > 1) w.bad.push(`a driver of '${d.cfg.id}' was closed ${d.closes} times`);
		}
		// with nothing closing them, equal settings are opened once
		const opens = new Map<string, number>(); for (const c of factoryCalls) { const k = c.id + ':' + tag(c); opens.set(k, (opens.get(k) ?? 0) + 1); }
		const edits = [...w.hist.values()].some(h => h.length > 1 || w.eph.size > 0);
		if (!w.shut.length && !w.idle && !w.failed && !edits) for (const [k, n] of opens) if (n > 1) w.bad.push(`${k} was opened ${n} times`);
		// shutdown leaves nothing open
		await PC.closeAll();
		for (const d of drivers) if (d.st !== 'closed' || d.closes !== 1) w.bad.push(`after shutdown a driver of '${d.cfg.id}' (${d.cfg.options.v}) is ${d.st}, closed ${d.closes} times`);
		for (const b of new Set(w.bad)) chk.violation('pool: ' + b.replace(/'[^']*'/g, 'a connection').slice(0, 90), `${sc.actors.map(a => a.name).join(' | ')}: ${b}`, ctx());
		fs.rmSync(w.R, { recursive: true, force: true });
		if (chk.traces % 500 === 0) chk.sample({ actors: sc.actors.map(a => a.name), schedule: res.trace, uses });
		chk.traces++; chk.transitions += res.trace.length; if (res.trace.length > 2) chk.nontrivial++;
		return res;
	}
	const V1: [string, string][] = [['a', '1'], ['b', '1']];
	const base = [A.ask('a'), A.edit('a', '2'), A.editReload('a', '2'), A.remove('a'), A.eph('e', '1'), A.idle(), A.shut()];
	const scns: Scn[] = [];
	const add = (actors: Actor[], o: Partial<Scn> = {}): void => { scns.push({ name: `${o.warm?.length ? 'warm ' : 'cold '}${o.fail ? 'fail ' : ''}${actors.map(a => a.name).join('|')}`, init: V1, warm: [], actors, ...o }); };
	for (const warm of [[], ['a'], ['a', 'b']]) for (const x of base) { add([A.ask('a'), x], { warm }); add([A.ask('a'), A.ask('b'), x].slice(0, 3), { warm }); }
	for (const warm of [[], ['a']]) {
		for (const [x, y] of [[A.editReload('a', '2'), A.shut()], [A.editReload('a', '2'), A.editReload('a', '3')], [A.remove('a'), A.editReload('a', '2')], [A.idle(), A.editReload('a', '2')], [A.idle(), A.shut()], [A.ask('a'), A.idle()], [A.remove('a'), A.shut()], [A.shut(), A.shut()]] as [Actor, Actor][]) add([A.ask('a'), x, y], { warm });
		add([A.ask2('a'), A.editReload('a', '2')], { warm }); add([A.ask2('a'), A.idle()], { warm }); add([A.ask2('a'), A.shut()], { warm });
		add([A.ask('a'), A.ask('a')], { warm, fail: 1 }); add([A.ask2('a'), A.ask('a')], { warm, fail: 1 }); add([A.ask('a'), A.editReload('a', '2')], { warm, fail: 1 }); add([A.ask('a'), A.shut()], { warm, fail: 1 });
		add([A.ask('a'), A.editReload('a', '2')], { warm, closeFails: true }); add([A.ask('a'), A.shut()], { warm, closeFails: true }); add([A.ask2('a'), A.idle()], { warm, closeFails: true });
	}
	add([A.ask('e'), A.eph('e', '2')], { init: [['a', '1']] }); add([A.eph('e', '1'), A.eph('e', '2'), A.ask('e')], { init: [['a', '1']] }); add([A.eph('e', '1'), A.editReload('a', '2'), A.ask('a')], { init: [['a', '1']] });
	const CAP = THOROUGH ? 60_000 : 2500;
	let complete = 0; const capped: string[] = [];
	await chk.sharded(async mine => {
		let i = 0;
		for (const sc of scns) { if (!mine(i++)) continue; const r = await allSchedules(c => schedule(sc, c), CAP); if (r.complete) complete++; else capped.push(sc.name); }
		chk.extra['scenarios explored completely'] = complete; complete = 0;
		chk.extra['scenarios cut at the bound'] = capped.length;
	});
	chk.extra['scenarios'] = scns.length;
	const ext = { ...chk.extra };
	S = null; failOpen = () => false; failClose = false;

	// =========================================================== (b) idle closing, in virtual time
	const R0 = join(SCRATCH, 'idle'); fs.mkdirSync(R0, { recursive: true }); fs.writeFileSync(join(R0, 'd.csv'), 'a\n');
	{
		// the idle time, measured once
		const M = 60_000;
		const fresh = async (): Promise<void> => { PC._resetCacheForTests(); drivers = []; timers = []; await CF.saveConnections(R0, { connections: [conf('a', '1'), conf('b', '1')] }); };
		await fresh(); await (await PC.acquirePool(R0)).acquire('a'); let lim = 0;
		while (drivers[0]!.st === 'open' && lim < 600) { advance(M); lim++; await new Promise(r => setImmediate(r)); }
		if (lim >= 600 || lim < 2) chk.violation('idle', `an unused connection is closed after ${lim} minutes`, {});
		for (const seq of sequences(4, THOROUGH ? 6 : 5)) {
			await fresh(); let last: Record<string, number> = {}; let t = 0; const ops = ['ask a', 'ask b', `wait ${lim - 1}`, 'wait 1'];
			for (const o of seq) {
				if (o < 2) { const id = 'ab'[o]!; const d: Drv = await (await PC.acquirePool(R0)).acquire(id); if (d.st !== 'open') chk.violation('idle', 'a closed driver was handed out', { seq: seq.map(x => ops[x]) }); last[id] = t; }
				else { const n = o === 2 ? lim - 1 : 1; advance(n * M); t += n; await new Promise(r => setImmediate(r)); }
				for (const id of ['a', 'b']) {
					const open = drivers.filter(d => d.cfg.id === id && d.st === 'open').length; const want = last[id] !== undefined && t - last[id]! < lim ? 1 : 0;
					if (open !== want) chk.violation('idle', `${open} driver(s) of '${id}' open ${t - (last[id] ?? 0)} minutes after its last use; closed when idle for ${lim}`, { seq: seq.map(x => ops[x]) });
				}
			}
			chk.evaluations++;
		}
		await PC.closeAll();
	}

	// =========================================================== (c) histories of saves and deletes
	const RA = join(SCRATCH, 'ra'), RB = join(SCRATCH, 'rb'); for (const r of [RA, RB]) { fs.mkdirSync(r, { recursive: true }); fs.writeFileSync(join(r, 'd.csv'), 'a\n'); }
	const full = (id: string, extra: any = {}): any => ({ id, kind: 'mcf', family: 'file', path: 'd.csv', label: 'L ' + id, options: { v: '1', delimiter: ';' }, pii: ['x'], namespace: { allow: ['n1'] }, recursive: true, partitioning: 'hive', ...extra });
	const urlc = (id: string, url: string): any => ({ id, kind: 'mcu', url, label: 'U', schemaSource: { type: 'prisma', path: 'd.csv' } });
	const inList = async (R: string): Promise<any[]> => (await CF.loadConnections(R)).resolved;
	const norm = (x: any): string => JSON.stringify(Object.fromEntries(Object.entries(x).filter(([, v]) => v !== undefined).sort(([a], [b]) => (a < b ? -1 : 1))));
	type H = { name: string; run: (st: HS) => Promise<void> };
	interface HS { want: Map<string, Map<string, any>>; broken: boolean; bytes: string }
	const W = (st: HS, R: string): Map<string, any> => st.want.get(R)!;
	const hv = (what: string, ctx: any): void => chk.violation('list: ' + what.slice(0, 60), what, ctx);
	let trail: string[] = [];
	const save = (R: string, cfg: any): H => ({ name: `save ${R === RA ? '' : 'other:'}${cfg.id} ${cfg.url ?? cfg.options?.v}`, run: async st => {
		const r = await RPC.saveConnectionRpc({ repoRoot: R, config: cfg });
		if (R === RA && st.broken) { if (!r.error) hv('a save over an unreadable list succeeded', { trail, r }); return; }
		if (r.error) { hv('a save was refused', { trail, r, cfg }); return; }
		W(st, R).set(cfg.id, { ...cfg });
	} });
	const del = (R: string, id: string): H => ({ name: `delete ${id}`, run: async st => {
		const r = await RPC.deleteConnectionRpc({ repoRoot: R, id });
		if (R === RA && st.broken) { if (!r.error) hv('a delete from an unreadable list succeeded', { trail, r }); return; }
		const had = W(st, R).has(id); if (r.error || r.removed !== had) hv(`deleting a connection that ${had ? 'exists' : 'does not exist'} answered ${JSON.stringify(r).slice(0, 60)}`, { trail }); W(st, R).delete(id);
	} });
	const acts: H[] = [
		save(RA, full('a')), save(RA, full('a', { options: { v: '2' }, recursive: false, label: undefined })), save(RA, full('b}%')), save(RA, urlc('a', 'mcu://me:pw1@h:1/db')), save(RA, urlc('u', 'mcu://me:p%40w%24%26@h/db?x=1')), save(RB, urlc('u', 'mcu://me:other@h/db')), save(RA, urlc('u', 'mcu://me@h/db')), save(RA, urlc('b}%', 'mcu://x:odd@h/d')),
		del(RA, 'a'), del(RA, 'u'), del(RA, 'b}%'), del(RA, 'zz'),
		{ name: 'spoil', run: async st => { if (st.broken) return; st.broken = true; const p: string = CF.connectionsPath(RA); fs.mkdirSync(join(p, '..'), { recursive: true }); st.bytes = fs.existsSync(p) ? fs.readFileSync(p, 'utf8') : '{"connections":[]}'; fs.writeFileSync(p, st.bytes.slice(0, -3)); } },
		{ name: 'restore', run: async st => { if (!st.broken) return; st.broken = false; fs.writeFileSync(CF.connectionsPath(RA), st.bytes); } },
	];
	const secretsOf = (u: string): string | null => { const m = /^[a-z+]+:\/\/[^/@:]*:(.+)@/.exec(u); return m ? m[1]! : null; };
	async function checkList(st: HS): Promise<void> {
		for (const R of [RA, RB]) {
			const p = CF.connectionsPath(R);
			if (R === RA && st.broken) { if (fs.readFileSync(p, 'utf8') !== st.bytes.slice(0, -3)) hv('an unreadable list was overwritten', { trail }); continue; }
			const text = fs.existsSync(p) ? fs.readFileSync(p, 'utf8') : '{"connections":[]}';
			let got: any[]; try { got = await inList(R); } catch (e: any) { hv('the list is unreadable: ' + e.message, { trail, text }); continue; }
			const want = W(st, R);
			if (got.map(c => c.id).sort().join() !== [...want.keys()].sort().join()) { hv(`the list holds ${got.map(c => c.id)}, expected ${[...want.keys()]}`, { trail, text }); continue; }
			const listed = await RPC.listConnectionsRpc({ repoRoot: R });
			if (listed.map((c: any) => c.id).sort().join() !== [...want.keys()].sort().join()) hv('the answered list differs from the stored one', { trail, listed });
			for (const g of got) {
				const w = want.get(g.id); const pw = w.url === undefined ? null : secretsOf(w.url);
				const { url: gu, secretRef: _sr, family: _f, ...gr } = g; const { url: wu, family: _f2, ...wr } = w;
				if (norm(gr) !== norm(wr)) hv(`the settings of '${g.id}' changed: ${norm(gr)}`, { trail, want: norm(wr) });
				if (wu !== undefined) {
					if (pw !== null && text.includes(pw)) hv(`the list holds the password of '${g.id}'`, { trail, text });
					let back: string; try { back = await SE.resolveSecrets(gu); } catch (e: any) { hv(`the secret of '${g.id}' is gone: ${e.message}`, { trail, text, keys: [...keys] }); continue; }
					if (back !== wu) hv(`'${g.id}' saved as ${wu} comes back as ${back}`, { trail });
				}
			}
			// secrets of connections that are gone are gone too
		}
		const live = new Set([RA, RB].flatMap(R => [...W(st, R).keys()].map(id => SE.makeSecretRef(CF.repoIdOf(R), id))));
		if (!st.broken) for (const k of keys.keys()) if (!live.has(k)) hv('the secret of a deleted connection is kept', { trail, k });
	}
	const depth = THOROUGH ? 4 : 3;
	await chk.sharded(async mine => {
		let i = 0;
		const used = THOROUGH ? acts : acts;
		for (const seq of sequences(used.length, depth)) {
			if (!mine(i++)) continue;
			keys.clear(); for (const R of [RA, RB]) fs.rmSync(CF.connectionsPath(R), { force: true });
			const st: HS = { want: new Map([[RA, new Map()], [RB, new Map()]]), broken: false, bytes: '' }; trail = [];
			for (const o of seq) { trail.push(used[o]!.name); await used[o]!.run(st); await checkList(st); chk.transitions++; }
			chk.traces++; chk.evaluations++;
		}
	});

	// ---- two at a time: both take effect, whatever the order of their file operations
	const pairsDone: Record<string, number> = { 'concurrent change pairs explored completely': 0 };
	const pairs: [string, (() => Promise<any>)[], string[]][] = [];
	const one: Record<string, [() => Promise<any>, (ids: Set<string>) => void]> = {
		'save c': [() => RPC.saveConnectionRpc({ repoRoot: RA, config: full('c') }), s => s.add('c')], 'save d': [() => RPC.saveConnectionRpc({ repoRoot: RA, config: full('d') }), s => s.add('d')],
		'save u': [() => RPC.saveConnectionRpc({ repoRoot: RA, config: urlc('u', 'mcu://m:p@h/d') }), s => s.add('u')], 'delete a': [() => RPC.deleteConnectionRpc({ repoRoot: RA, id: 'a' }), s => s.delete('a')], 'delete b': [() => RPC.deleteConnectionRpc({ repoRoot: RA, id: 'b' }), s => s.delete('b')],
	};
	const names = Object.keys(one);
	for (let i = 0; i < names.length; i++) for (let j = i + 1; j < names.length; j++) { const s = new Set(['a', 'b']); one[names[i]!]![1](s); one[names[j]!]![1](s); pairs.push([`${names[i]} | ${names[j]}`, [one[names[i]!]![0], one[names[j]!]![0]], [...s].sort()]); }
	for (const [name, fns, want] of pairs) {
		const r = await allSchedules(async choices => {
			S = null; keys.clear(); PC._resetCacheForTests(); await CF.saveConnections(RA, { connections: [full('a'), full('b')] });
			const s = new Sched(); S = s; let n = fns.length; const out: any[] = [];
			fns.forEach((f, k) => void f().then(x => { out[k] = x; }, e => { out[k] = { error: String(e) }; }).finally(() => { n--; s.progress++; }));
			const res = await runSchedule(s, () => n === 0, choices); S = null;
			const got = (await inList(RA)).map(c => c.id).sort();
			if (got.join() !== want.join()) hv(`${name}: the list holds ${got}, expected ${want}`, { schedule: res.trace, out });
			if (out.some(o => o?.error)) hv(`${name}: one of them failed`, { schedule: res.trace, out });
			chk.traces++; chk.transitions += res.trace.length; return res;
		}, THOROUGH ? 20_000 : 300);
		if (r.complete) pairsDone['concurrent change pairs explored completely']!++;
	}
	S = null;

	// =========================================================== (d) secrets: every URL comes back as it was, nothing of the password is written
	const pws = ['pw', '$&', '$1$$', '${secret:x}', '%40', 'a%2Fb%25', '}', '{}', "it's", '"', '\\', 'é', '!*()', 'p:w', '-', 'insrc-secret', '~'];
	const users = ['me', '', 'u%40x', 'insrc-secret']; const hosts = ['h', 'h:5432', '[::1]:1', '127.0.0.1', 'h1:1,h2:2']; const tails = ['', '/db', '/db?x=1&y=%20z', '/db#f', '/d?p=insrc-secret', '?mail=a@b'];
	const ids = ['c', 'a/b', 'x}y', 'ü', '%', '$&', 'a b', '..'];
	let nUrl = 0;
	for (const [scheme, u, pw, h, t] of [...product(['postgres', 'mcu', 'mongodb+srv', 'http'], users, pws, hosts, tails)] as string[][]) {
		const url = `${scheme}://${u}:${pw}@${h}${t}`; const id = ids[nUrl++ % ids.length]!;
		if (scheme === 'http' && pw === '\\') continue;
		let canon: string; try { canon = new URL(url).href; } catch { canon = url; if (/^(http)$/.test(scheme!)) continue; }
		keys.clear(); const ref = SE.makeSecretRef('repo', id);
		const red = await SE.extractUrlPassword(url, ref); chk.evaluations++;
		if (pw!.includes('${secret:')) continue;
		const rest = `${u}@${h}${t}`;
		if (pw!.length > 2 && !rest.includes(pw!) && (red.includes(pw!) || red.includes(encodeURIComponent(pw!)))) chk.violation('secret kept in the URL', `${url} is stored as ${red}`, {});
		if (!red.includes('${secret:')) { chk.violation('secret not extracted', `${url} is stored as ${red}`, {}); continue; }
		let back: string; try { back = await SE.resolveSecrets(red); } catch (e: any) { chk.violation('secret not found', `${url} (connection '${id}') stored as ${red}: ${e.message}`, {}); continue; }
		let cb: string; try { cb = new URL(back).href; } catch { cb = back; }
		if (cb !== canon) chk.violation('secret round trip', `${url} comes back as ${back}`, { stored: red, id });
	}
	for (const url of ['mcu://me@h/db', 'mcu://h/db', 'file.sqlite', 'a@b:c', 'mcu://h/p:x@y']) { keys.clear(); const red = await SE.extractUrlPassword(url, 'r'); if (red !== url || keys.size) chk.violation('no password', `${url} without password is stored as ${red}`, { keys: [...keys] }); chk.evaluations++; }
	// two connections, two secrets: refs never collide
	const refs = new Map<string, string>(); for (const r of [RA, RB]) for (const id of [...ids, 'x%7Dy', 'A/b', 'x', '']) { const ref = SE.makeSecretRef(CF.repoIdOf(r), id); if (refs.has(ref)) chk.violation('secret refs collide', `'${id}' and ${refs.get(ref)} share a secret`, {}); refs.set(ref, `'${id}'`); chk.evaluations++; }

	// =========================================================== (e) trying a connection out changes nothing and leaves nothing open
	for (const [mode, fails, closes] of [...product(['url', 'file', 'persisted', 'outside', 'missing', 'unknown'], [false, true], [false, true])] as [string, boolean, boolean][]) {
		keys.clear(); drivers = []; await CF.saveConnections(RA, { connections: [] }); await RPC.saveConnectionRpc({ repoRoot: RA, config: urlc('p', 'mcu://me:pw%40@h/db') });
		const before = fs.readFileSync(CF.connectionsPath(RA), 'utf8'), k0 = JSON.stringify([...keys]);
		failOpen = () => fails; failClose = closes;
		const cfg = mode === 'url' ? urlc('q', 'mcu://me:secret@h/db') : mode === 'file' ? full('f') : mode === 'persisted' ? { id: 'p', kind: 'mcu' } : mode === 'outside' ? full('f', { path: '../rb/d.csv' }) : mode === 'missing' ? full('f', { path: 'nope.csv' }) : { id: 'zz', kind: 'mcu' };
		const r = await RPC.testConnectionRpc({ repoRoot: RA, config: cfg }); await new Promise(x => setImmediate(x));
		const ok = !fails && ['url', 'file', 'persisted'].includes(mode);
		const say = (w: string): void => chk.violation('try ' + w.slice(0, 40), `trying a connection (${mode}${fails ? ', cannot connect' : ''}): ${w}`, { r });
		if ((r.ok === true) !== ok) say(`answered ${JSON.stringify(r)}`);
		if (fs.readFileSync(CF.connectionsPath(RA), 'utf8') !== before || JSON.stringify([...keys]) !== k0) say('changed the list or the secrets');
		if (drivers.some(d => d.st !== 'closed' || d.closes !== 1)) say('left a driver open');
		if (['outside', 'missing'].includes(mode) && drivers.length) say('opened it');
		if (ok && mode !== 'file' && drivers[0]!.cfg.url !== (mode === 'url' ? 'mcu://me:secret@h/db' : 'mcu://me:pw%40@h/db')) say(`connected to ${drivers[0]!.cfg.url}`);
		if (ok && mode === 'file' && (drivers[0]!.cfg.path !== join(RA, 'd.csv') || drivers[0]!.cfg.recursive !== true || drivers[0]!.cfg.partitioning !== 'hive' || drivers[0]!.cfg.options.delimiter !== ';')) say(`opened with ${JSON.stringify(drivers[0]!.cfg)}`);
		chk.evaluations++;
	}
	failOpen = () => false; failClose = false;
	// the pool opens with the same settings: secrets put in, path absolute and inside the repository
	for (const [path, okPath] of [['d.csv', true], [join(RA, 'd.csv'), true], ['./sub/../d.csv', true], ['..d/x.csv', true], ['../rb/d.csv', false], [join(RB, 'd.csv'), false], ['..', false], [RA + '2/d.csv', false], ['nope', false]] as [string, boolean][]) {
		fs.mkdirSync(join(RA, '..d'), { recursive: true }); fs.writeFileSync(join(RA, '..d/x.csv'), 'a\n'); fs.mkdirSync(RA + '2', { recursive: true }); fs.writeFileSync(RA + '2/d.csv', 'a\n');
		drivers = []; PC._resetCacheForTests(); await CF.saveConnections(RA, { connections: [full('f', { path })] });
		let ok = true; try { await (await PC.acquirePool(RA)).acquire('f'); } catch { ok = false; }
		if (ok !== okPath) chk.violation('path ' + path.replace(SCRATCH, ''), `a source at ${path} is ${ok ? 'opened' : 'refused'}`, {});
		if (ok && fs.realpathSync(drivers[0]!.cfg.path) !== fs.realpathSync(path.startsWith('/') ? path : join(RA, path))) chk.violation('path', `a source at ${path} is opened at ${drivers[0]!.cfg.path}`, {});
		await PC.closeAll(); chk.evaluations++;
	}
	for (const setting of [{ label: 'n' }, { options: { v: '9' } }, { pii: ['y'] }, { namespace: { allow: ['m'] } }, { recursive: false }, { partitioning: 'none' }, { path: './d.csv' }, { kind: 'mcf2' }, { schemaSource: { type: 'prisma', path: 'd.csv' } }]) {
		drivers = []; PC._resetCacheForTests(); await CF.saveConnections(RA, { connections: [full('f')] });
		const d0 = await (await PC.acquirePool(RA)).acquire('f'); const again = await (await PC.acquirePool(RA)).acquire('f');
		if (again !== d0) chk.violation('reopened', 'an unchanged connection was opened again', {});
		await CF.saveConnections(RA, { connections: [full('f', setting)] });
		const d1: Drv = await (await PC.acquirePool(RA)).acquire('f'); const [k, v] = Object.entries(setting)[0]!;
		if (k !== 'path' && JSON.stringify(d1.cfg[k]) !== JSON.stringify(k === 'schemaSource' ? { type: 'prisma', path: join(RA, 'd.csv') } : v)) chk.violation('setting ' + k, `after ${k} was changed the connection is opened with ${JSON.stringify(d1.cfg[k])}`, {});
		await PC.closeAll(); if (drivers.some(d => d.closes !== 1)) chk.violation('setting ' + k, 'a replaced driver is not closed exactly once', {}); chk.evaluations++;
	}
	if (chk.traces < 3000) chk.violation('machinery', 'fewer schedules and histories than expected', { n: chk.traces });
	chk.assumptions = ['drivers are stand-ins recording opening and closing; opening, closing, reading and replacing the list and probing the path are the points at which actors may be overtaken', 'a driver may be closed (edit, idle, shutdown) while a question that got it earlier still uses it', `schedules of a scenario are explored up to ${CAP} (see the number of scenarios cut)`];
	Object.assign(chk.extra, ext, pairsDone);
	await chk.finish();
});
