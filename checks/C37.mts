// C37: data sources kept as converted copies (Avro, BSON, Excel, fixed-width) — every interleaving of questions, edits, failures and evictions and every
// history of file changes is answered from what the source holds now, and conversion loses nothing.
import { syncBuiltinESMExports, createRequire } from 'node:module';
import * as fs from 'node:fs';
import { join } from 'node:path';
import { Check, main, THOROUGH, SCRATCH, repo, sequences, product, canon } from '../lib/mc.mts';
import { Sched, runSchedule, allSchedules, type RunResult } from '../lib/sched.mts';

let S: Sched | null = null; let busy = 0;
let queue: Promise<unknown> = Promise.resolve();
const P = fs.promises as any;
const GATED = new Set(['rename', 'stat', 'writeFile']);
for (const name of ['readFile', 'writeFile', 'mkdir', 'rename', 'rm', 'access', 'stat', 'unlink', 'readdir', 'copyFile', 'open', 'lstat', 'cp']) {
	const real = P[name];
	P[name] = function (...a: any[]) {
		const s = S; if (!s) { busy++; return real.apply(P, a).finally(() => { busy--; }); }
		const op = (): Promise<any> => { s.inflight++; const r = queue.then(() => real.apply(P, a)); queue = r.then(() => undefined, () => undefined); return r.finally(() => { s.inflight--; s.progress++; }); };
		return GATED.has(name) ? s.point('io:' + name).then(op) : op();
	};
}
syncBuiltinESMExports();
let voff = 0; const rDN = Date.now; Date.now = (): number => rDN() + voff;

await main(async () => {
	const chk = new Check('C37', 'model_checking');
	const CC: any = await repo('src/daemon/db/converter-cache.ts');
	const { registerBuiltinDataDrivers } = await repo('src/daemon/db/drivers/index.ts'), CF: any = await repo('src/daemon/db/config.ts'), PC: any = await repo('src/daemon/db/pool-cache.ts');
	await registerBuiltinDataDrivers();
	const { registerDbTools } = await repo('src/daemon/tools/builtins/db/index.ts'), { getTool } = await repo('src/daemon/tools/registry.ts'); registerDbTools();
	const req = createRequire(join(process.env['MC_REPO'] ?? '/repo', 'package.json'));
	const V = (k: string, w: string, c: any = {}): void => chk.violation(k, w, c);
	chk.rule = 'For each set of two or three concurrent actors (questions of two sources or of one under two settings, edits, a failing conversion) every order of the points at which they wait (probing the source, converting, moving the copy in place, noting it) is executed on the real cache; each answer must hold the content of a version of the source present while the question ran, whole, made with the asked settings.';
	/** until no file operation is under way any more */
	const quiet = async (): Promise<void> => { for (let i = 0; i < 8; i++) { await new Promise(r => setImmediate(r)); if (busy) i = 0; } };

	// ============================================================ (a) schedules of the cache
	const SD = join(SCRATCH, 'src'); fs.mkdirSync(SD, { recursive: true });
	let wseq = 0, clockMt = 1_700_000_000;
	interface W { id: string; now: number; hist: Map<string, { c: string; from: number; to: number }[]>; bad: string[]; convs: number; failLeft: number; failed: number }
	const put = (w: W, src: string, c: string): void => { const h = w.hist.get(src) ?? []; w.hist.set(src, h); const prev = h[h.length - 1]; fs.writeFileSync(src, c); fs.utimesSync(src, ++clockMt, clockMt); if (prev) prev.to = w.now; h.push({ c, from: w.now++, to: Infinity }); };
	const conv = (w: W, kind: string) => async (s: string, d: string): Promise<any> => {
		w.convs++; const c = fs.readFileSync(s, 'utf8'); if (S) await S.point('convert ' + c);
		fs.writeFileSync(d, kind + ':' + c.slice(0, 1)); if (S) await S.point('half ' + c);
		if (w.failLeft > 0) { w.failLeft--; w.failed++; throw new Error('conversion failed'); }
		fs.writeFileSync(d, `${kind}:${c}.`); return { rowCount: 1, durationMs: 0 };
	};
	async function ask(w: W, src: string, kind: string, other = false): Promise<void> {
		const t0 = w.now++; const f0 = w.failed; const dest = CC.destForSource(w.id, SD, src);
		try { await CC.ensureCached(w.id, src, dest, kind, conv(w, kind)); }
		catch (e: any) { if (w.failed === f0) w.bad.push(`a question failed: ${e.message}`); return; }
		const t1 = w.now++; let got: string; try { got = fs.readFileSync(dest, 'utf8'); } catch { w.bad.push('the copy just made is not there'); return; }
		const m = /^(\w+):(.*)\.$/.exec(got); if (!m) { w.bad.push(`half a copy was read: ${got}`); return; }
		if (!other && m[1] !== kind) w.bad.push(`asked with ${kind}, answered with a copy made with ${m[1]}`);
		if (!(w.hist.get(src) ?? []).some(v => v.c === m[2] && v.from <= t1 && v.to >= t0)) w.bad.push(`answered with ${m[2]}, not the content of the source at any time of the question`);
	}
	type Act = [string, (w: W, p: (n: string) => string) => Promise<void>];
	const askA = (f: string, k = 'k1', other = false): Act => [`ask ${f}${k === 'k1' ? '' : ' ' + k}`, (w, p) => ask(w, p(f), k, other)];
	const edit = (f: string, c: string): Act => [`edit ${f}=${c}`, async (w, p) => { await S!.point('edit'); put(w, p(f), c); }];
	const twice = (f: string): Act => [`ask ${f} twice`, async (w, p) => { await ask(w, p(f), 'k1'); await ask(w, p(f), 'k1'); }];
	const scns: { acts: Act[]; fail?: number; warm?: boolean }[] = [];
	for (const warm of [false, true]) scns.push({ warm, acts: [askA('f'), askA('f')] }, { warm, acts: [askA('f'), edit('f', 'B2')] }, { warm, acts: [twice('f'), edit('f', 'B2')] }, { warm, acts: [askA('f'), askA('f'), edit('f', 'B2')] }, { warm, acts: [askA('f'), edit('f', 'B2'), edit('f', 'C3')] }, { warm, acts: [askA('f'), askA('g')] }, { warm, acts: [askA('f'), askA('g'), edit('f', 'B2')] },
		{ warm, acts: [askA('f', 'k1', true), askA('f', 'k2', true)] }, { warm, acts: [askA('f'), askA('f')], fail: 1 }, { warm, acts: [twice('f'), askA('f')], fail: 1 }, { warm, acts: [askA('f'), edit('f', 'B2')], fail: 1 }, { warm, acts: [askA('f'), askA('f'), askA('f')] }, { warm, acts: [twice('f'), askA('f'), edit('f', 'B2')] });
	async function schedule(sc: (typeof scns)[number], choices: number[]): Promise<RunResult> {
		const w: W = { id: 'c' + ++wseq, now: 0, hist: new Map(), bad: [], convs: 0, failLeft: 0, failed: 0 }; CC._resetForTests(); S = null;
		const p = (n: string): string => join(SD, `${n}${wseq}`); put(w, p('f'), 'A1'); put(w, p('g'), 'G1');
		if (sc.warm) { await ask(w, p('f'), 'k1'); await ask(w, p('g'), 'k1'); }
		const c0 = w.convs; w.failLeft = sc.fail ?? 0;
		const s = new Sched(); S = s; let n = sc.acts.length;
		for (const [, f] of sc.acts) void f(w, p).catch(e => w.bad.push(String(e))).finally(() => { n--; s.progress++; });
		const res = await runSchedule(s, () => n === 0, choices); if (res.stuck) w.bad.push('a question waits for ever');
		for (let i = 0; i < 50 && s.waiting.length; i++) { s.waiting.shift()!.open(); await s.settle(() => true); } S = null;
		const names = sc.acts.map(a => a[0]); const edits = names.some(x => x.startsWith('edit')), kinds = new Set(names.map(x => (x.includes('k2') ? 2 : 1))).size;
		if (!edits && kinds === 1 && !sc.fail && w.convs - c0 !== (sc.warm ? 0 : new Set(names.map(x => x.split(' ')[1])).size)) w.bad.push(`${w.convs - c0} conversions of ${new Set(names.map(x => x.split(' ')[1])).size} unchanged source(s)${sc.warm ? ' already converted' : ''}`);
		// afterwards: current, at once, once
		w.failLeft = 0; for (const f of ['f', 'g']) { await ask(w, p(f), 'k1'); const c = w.convs; await ask(w, p(f), 'k1'); if (w.convs !== c) w.bad.push('an unchanged source was converted again'); if (!(await CC.isCached(p(f), CC.destForSource(w.id, SD, p(f)), 'k1'))) w.bad.push('a current copy is not taken for one'); }
		const left: string[] = []; const root = join(CC.cacheRoot(), '..'); const walk = (d: string): void => { for (const e of fs.readdirSync(d, { withFileTypes: true })) e.isDirectory() ? walk(join(d, e.name)) : left.push(join(d, e.name)); }; if (fs.existsSync(root)) walk(root);
		for (const f of left) { const t = fs.readFileSync(f, 'utf8'); if (/^k\d:/.test(t) && !t.endsWith('.')) w.bad.push('half a copy is left behind'); }
		for (const b of new Set(w.bad)) V('cache: ' + b.slice(0, 60), `${sc.warm ? 'converted before; ' : ''}${sc.fail ? 'one conversion fails; ' : ''}${names.join(' | ')}: ${b}`, { schedule: res.trace });
		await CC.clearConnectionCache(w.id); if (await CC.isCached(p('f'), CC.destForSource(w.id, SD, p('f')))) V('clear', 'a cleared copy is still taken for current');
		for (const f of ['f', 'g']) fs.rmSync(p(f));
		if (chk.traces % 400 === 0) chk.sample({ actors: names, schedule: res.trace });
		chk.traces++; chk.transitions += res.trace.length; chk.nontrivial++; return res;
	}
	let complete = 0, cut = 0;
	const CAP = THOROUGH ? 40_000 : 1200;
	await chk.sharded(async mine => { let i = 0; for (const sc of scns) { if (!mine(i++)) continue; const r = await allSchedules(c => schedule(sc, c), CAP); if (r.complete) complete++; else cut++; } chk.extra['schedule sets explored completely'] = complete; chk.extra['schedule sets cut at the bound'] = cut; complete = cut = 0; });
	const ext = { ...chk.extra };

	// ============================================================ (b) ids, places and eviction
	{
		const dests = new Map<string, string>();
		for (const [id, root, f] of [...product(['a', 'A', 'a/b', '..', 'a b', 'a%2Fb', ''], [join(SCRATCH, 'r1'), join(SCRATCH, 'r2')], ['f', 'f.parquet', 'sub/f', 'f.x'])] as string[][]) { const d = CC.destForSource(id, root, join(root!, f!)); chk.evaluations++; if (!d.startsWith(CC.cacheRoot() + '/')) V('dest', `the copy of connection '${id}' lies outside the cache: ${d}`); const k = d; if (dests.has(k)) V('dest', `two sources share the copy ${d}: ${dests.get(k)} and ${id} ${root} ${f}`); dests.set(k, `${id} ${root} ${f}`); }
		for (const keep of ['a', '..', 'x/y']) { const s = join(SD, 'keep'); fs.writeFileSync(s, 'K1'); const w: W = { id: keep, now: 0, hist: new Map(), bad: [], convs: 0, failLeft: 0, failed: 0 }; w.hist.set(s, [{ c: 'K1', from: 0, to: Infinity }]); await ask(w, s, 'k1'); for (const other of ['a', '..', 'x/y', 'x', '.', '', 'a/..']) if (other !== keep) { await CC.clearConnectionCache(other); chk.evaluations++; if (other !== '' && other !== '.' && !(await CC.isCached(s, CC.destForSource(keep, SD, s)))) V('clear', `clearing '${other}' removed the copies of '${keep}'`); await ask(w, s, 'k1'); } await CC.clearConnectionCache(keep); }
		// eviction: histories of questions and waits; 1 MB holds two of the copies
		process.env['INSRC_CONVERTER_CACHE_MB'] = '1'; const big = 'x'.repeat(400 * 1024);
		await chk.sharded(async mine => {
			let i = 0;
			for (const seq of sequences(5, THOROUGH ? 6 : 4)) {
				if (!mine(i++)) continue;
				fs.rmSync(CC.cacheRoot(), { recursive: true, force: true }); CC._resetForTests(); voff = 0; const last = new Map<string, number>(), made = new Map<string, number>(); const ops = ['a', 'b', 'dir c', 'd', 'wait 11 min'];
				for (const o of seq) {
					if (o === 4) { voff += 11 * 60_000; continue; }
					const src = join(SD, 'e' + 'abcd'[o]); if (!fs.existsSync(src)) fs.writeFileSync(src, 'x');
					const dest = CC.destForSource('ev', SD, src); let converted = false;
					await CC.ensureCached('ev', src, dest, 'k', async (_s: string, d: string) => { converted = true; if (o === 2) { fs.mkdirSync(d, { recursive: true }); fs.writeFileSync(join(d, 's1.parquet'), big.slice(0, 200 * 1024)); fs.writeFileSync(join(d, 's2.parquet'), big.slice(0, 200 * 1024)); } else fs.writeFileSync(d, big); return { rowCount: 1, durationMs: 0 }; });
					if (converted) { made.set(src, rDN() + voff); const t = (rDN() + voff) / 1000; for (const f of o === 2 ? [join(dest, 's1.parquet'), join(dest, 's2.parquet')] : [dest]) fs.utimesSync(f, t, t); }
					last.set(src, voff); await quiet();
					const size = (d: string): number => { try { const s = fs.statSync(d); return s.isDirectory() ? fs.readdirSync(d).reduce((n, e) => n + size(join(d, e)), 0) : s.size; } catch { return 0; } };
					const all = 'abcd'.split('').map(c => join(SD, 'e' + c)); const here = all.filter(s => size(CC.destForSource('ev', SD, s)) > 0); const total = here.length * 400 * 1024;
					const old = here.filter(s => voff - (last.get(s) ?? -1e12) > 600_000);
					const say = (w: string): void => V('evict ' + w.slice(0, 30), w, { history: seq.map(x => ops[x]), here: here.map(x => x.slice(-1)) });
					if (!here.includes(src)) say('the copy just asked for was evicted');
					for (const s of all) if (last.has(s) && voff - last.get(s)! <= 600_000 && !here.includes(s)) say('a copy used within ten minutes was evicted');
					if (converted && total > 1024 * 1024 && old.length) { const now = all.filter(s => size(CC.destForSource('ev', SD, s)) > 0); if (now.length * 400 * 1024 > 1024 * 1024 && now.some(s => voff - (last.get(s) ?? -1e12) > 600_000)) say('the cache is beyond its size though unused copies are in it'); }
					const dc = CC.destForSource('ev', SD, join(SD, 'ec')); if (fs.existsSync(dc) && fs.readdirSync(dc).length !== 2) say('part of a workbook was evicted');
				}
				chk.traces++;
			}
		});
		delete process.env['INSRC_CONVERTER_CACHE_MB']; voff = 0;
	}

	// ============================================================ (c) histories of files, asked through the tools
	const plain = (v: any): any => v === undefined ? null : typeof v === 'bigint' ? Number(v) : v;
	const rowsOf = (d: any): any[] => d.rows.map((r: any) => Array.isArray(r) ? Object.fromEntries(d.columns.map((c: string, i: number) => [c, plain(r[i])])) : Object.fromEntries(d.columns.map((c: string) => [c, plain(r[c])])));
	const sample = async (R: string, id: string, target?: string): Promise<any[] | string> => { chk.evaluations++; const r = await getTool('db_file_sample').execute({ connectionId: id, limit: 50, ...(target ? { target } : {}) }, { repoPath: R }).catch((e: any) => ({ success: false, error: String(e?.message ?? e) })); return r.success ? rowsOf(r.data) : String(r.error); };
	const L1 = [{ name: 'a', start: 0, length: 2, type: 'string' }, { name: 'n', start: 2, length: 3, type: 'integer' }], L2 = [{ name: 'a', start: 0, length: 1, type: 'string' }, { name: 'z', start: 1, length: 4, type: 'string' }];
	const CONT: Record<string, string> = { v1: 'ab  1\ncd 22\n', v2: 'xy  7\n', v3: 'ab  2\ncd 33\n' };
	const fw = (text: string, cols: any[]): any[] => text.split('\n').filter(l => l !== '').map(l => Object.fromEntries(cols.map(c => { const t = l.slice(c.start, c.start + c.length).trim(); return [c.name, t === '' ? null : c.type === 'integer' ? Number(t) : t]; })));
	await chk.sharded(async mine => {
		const hops = ['f=v1', 'f=v2', 'f=v3', 'g=v2', 'rm f', 'sub=v1', 'layout', 'repoint', 'age', 'swap'] as const;
		let i = 0;
		for (const seq of sequences(hops.length, THOROUGH ? 4 : 3)) {
			if (!mine(i++)) continue;
			const R = [join(SCRATCH, 'ha'), join(SCRATCH, 'hb')]; const model: Record<string, string>[] = [{}, {}]; let layout = L1, point = 'd1', who = 0; let mt = 1_700_000_000, aged = 1_600_000_000;
			for (const r of R) { fs.rmSync(r, { recursive: true, force: true }); fs.mkdirSync(join(r, 'd1/sub'), { recursive: true }); fs.mkdirSync(join(r, 'd2'), { recursive: true }); fs.writeFileSync(join(r, 'd2/f'), CONT['v3']!); fs.utimesSync(join(r, 'd2/f'), mt, mt); }
			PC._resetCacheForTests(); fs.rmSync(CC.cacheRoot(), { recursive: true, force: true });
			const conf = async (): Promise<void> => { for (const r of R) await CF.saveConnections(r, { connections: [{ id: 'one', kind: 'fixed-width', path: join(point, 'f'), options: { columns: layout } }, { id: 'dir', kind: 'fixed-width', path: 'd1', options: { columns: layout } }, { id: 'all', kind: 'fixed-width', path: 'd1', recursive: true, options: { columns: layout } }] }); };
			const write = (f: string, v: string, stamp = ++mt): void => { fs.writeFileSync(join(R[who]!, 'd1', f), CONT[v]!); fs.utimesSync(join(R[who]!, 'd1', f), stamp, stamp); model[who]![f] = v; };
			await conf(); for (who of [0, 1]) write('f', who ? 'v2' : 'v1', mt); who = 0;
			const trail: string[] = [];
			const look = async (): Promise<void> => {
				for (const [w, id] of [[who, 'one'], [who, 'dir'], [who, 'all'], [1 - who, 'one']] as [number, string][]) {
					const m = model[w]!; const files = id === 'one' ? (point === 'd2' ? ['d2'] : m['f'] ? ['f'] : null) : Object.keys(m).filter(f => id === 'all' || f !== 'sub/h');
					const want = files === null || !files.length ? null : files.flatMap(f => fw(CONT[f === 'd2' ? 'v3' : m[f]!]!, layout));
					const got = await sample(R[w]!, id);
					const key = (r: any): string => JSON.stringify(Object.entries(r).sort());
					if (want === null ? typeof got !== 'string' : typeof got === 'string' || canon(got.map(key).sort()) !== canon(want.map(key).sort())) V('history ' + id, `the source '${id}' of repository ${w + 1} is answered with ${JSON.stringify(got)}, it holds ${JSON.stringify(want)}`, { history: trail });
				}
			};
			await look();
			for (const o of seq) {
				const h = hops[o]!; trail.push(h);
				if (h === 'rm f') { fs.rmSync(join(R[who]!, 'd1/f'), { force: true }); delete model[who]!['f']; }
				else if (h === 'sub=v1') write('sub/h', 'v1');
				else if (h === 'layout') { layout = layout === L1 ? L2 : L1; await conf(); }
				else if (h === 'repoint') { point = point === 'd1' ? 'd2' : 'd1'; await conf(); }
				else if (h === 'age') { if (model[who]!['f']) write('f', model[who]!['f'] === 'v1' ? 'v3' : 'v1', --aged); } // an older file put in its place, of the same size
				else if (h === 'swap') who = 1 - who;
				else { const [f, v] = h.split('=') as [string, string]; write(f, v); }
				await look(); chk.transitions++;
			}
			await PC.closeAll(); chk.traces++; chk.nontrivial++;
		}
		chk.note('histories');
	});

	// ============================================================ (d) conversion loses nothing
	const bson = req('bson'), ExcelJS = req('exceljs'), avsc = req('avsc');
	const RC = join(SCRATCH, 'conv'); fs.rmSync(RC, { recursive: true, force: true }); fs.mkdirSync(RC, { recursive: true });
	const text = (v: any): string[] => typeof v === 'string' ? [v] : v instanceof Date ? [v.toISOString(), String(v.getTime())] : typeof v === 'object' ? [JSON.stringify(v)] : [String(v), JSON.stringify(v)];
	const asDate = (g: any): number | null => g instanceof Date ? g.getTime() : typeof g === 'string' && /^\d{4}-\d\d-\d\d/.test(g) ? Date.parse(/[zZ]|[+-]\d\d:?\d\d$/.test(g) ? g : g.replace(' ', 'T') + 'Z') : null;
	const same = (got: any, want: any, again = false, mixed = again): boolean => {
		if (again && typeof got === 'string' && want !== null && want !== undefined) { try { const j = JSON.parse(got); if (same(j?.$numberDecimal ?? j, want, false, true)) return true; } catch { /* plain text */ } } // a column of documents and other values is JSON
		if (want === null || want === undefined) return got === null;
		if (got === null) return false;
		if (!mixed && typeof want !== 'object' && typeof got !== typeof want) return false; // a column of one type keeps it
		if (want instanceof Date) return asDate(got) === want.getTime() || text(want).includes(String(got));
		if (Buffer.isBuffer(want)) return typeof got === 'string' ? [want.toString('base64'), want.toString('utf8'), want.toString('hex')].includes(got) : true;
		if (typeof want === 'number' && typeof got === 'number') return got === want;
		if (typeof want === 'bigint') return String(got) === String(want);
		if (typeof want === 'boolean' && typeof got === 'boolean') return got === want;
		if (typeof want === 'string' && got === want) return true;
		if (typeof want === 'object') { try { return canon(typeof got === 'string' ? JSON.parse(got) : got) === canon(want); } catch { return false; } }
		return text(want).includes(String(got));
	};
	async function compare(kind: string, what: string, rows: any[], cols: string[], got: any[] | string): Promise<void> {
		if (typeof got === 'string') { V(kind + ' fails', `${kind} ${what}: ${got}`); return; }
		if (got.length !== rows.length) { V(kind + ' rows', `${kind} ${what}: ${got.length} rows, the source has ${rows.length}`, { got }); return; }
		rows.forEach((r, i) => { for (const c of cols) if (!(c in got[i]!) ? r[c] !== null && r[c] !== undefined : !same(got[i]![c], r[c], rows.some(q => typeof q[c] === 'object' && q[c] !== null && !(q[c] instanceof Date)), new Set(rows.map(q => q[c]).filter(v => v !== null && v !== undefined).map(v => v instanceof Date ? 'date' : typeof v)).size > 1)) V(`${kind} value`, `${kind} ${what}: row ${i + 1} has ${JSON.stringify(got[i]![c])} in '${c}', the source ${JSON.stringify(r[c])}`, { got }); });
	}
	const conns: any[] = []; const jobs: [string, string, any[], string[], string?][] = []; let seq = 0;
	const addSrc = (kind: string, what: string, rows: any[], cols: string[], ext: string, target?: string): string => { const id = `s${seq++}`; conns.push({ id, kind, path: `${id}.${ext}` }); jobs.push([id, `${kind}|${what}`, rows, cols, target]); return join(RC, `${id}.${ext}`); };
	const oid = new bson.ObjectId('0123456789abcdef01234567');
	await chk.sharded(async mine => {
		let n = 0; conns.length = 0; jobs.length = 0; seq = 0;
		// documents
		const BV: [string, any, any][] = [['absent', undefined, null], ['null', null, null], ['5', 5, 5], ['-1', -1, -1], ['2.5', 2.5, 2.5], ['true', true, true], ['x', 'x', 'x'], ['empty', '', ''], ['{b}', { b: 1 }, { b: 1 }], ['[1,2]', [1, 2], [1, 2]], ['date', new Date(86400123), new Date(86400123)], ['oid', oid, oid.toHexString()], ['big', bson.Long.fromString('4000000000'), 4000000000], ['dec', bson.Decimal128.fromString('1.10'), '1.10'], ['quote', `it's "q" é`, `it's "q" é`]];
		for (const len of [1, 2, 3]) for (const s of sequences(BV.length, len)) {
			if (len === 3 && !THOROUGH && s.some(k => ![0, 2, 4, 5, 6, 8, 10].includes(k))) continue; // a smaller alphabet
			if (!mine(n++)) continue;
			const docs = s.map((k, i) => ({ k: i, ...(BV[k]![1] === undefined ? {} : { a: BV[k]![1] }) })); const f = addSrc('bson', s.map(k => BV[k]![0]).join(', '), s.map((k, i) => ({ k: i, a: BV[k]![2] })), ['k', 'a'], 'bson');
			fs.writeFileSync(f, Buffer.concat(docs.map(d => Buffer.from(bson.BSON.serialize(d)))));
		}
		// worksheets
		const XV: [string, any, any][] = [['null', null, null], ['1', 1, 1], ['2.5', 2.5, 2.5], ['-7', -7, -7], ['x', 'x', 'x'], ['true', true, true], ['false', false, false], ['date', new Date(86400000), new Date(86400000)], ['formula 3', { formula: '1+2', result: 3 }, 3], ['rich', { richText: [{ text: 'he' }, { text: 'llo' }] }, 'hello'], ['link', { text: 'lk', hyperlink: 'http://x' }, 'lk'], ['error', { error: '#N/A' }, null], ['007', '007', '007']];
		for (const len of [1, 2]) for (const s of sequences(XV.length, len)) {
			if (!mine(n++)) continue;
			const f = addSrc('xlsx', s.map(k => XV[k]![0]).join(', '), s.map((k, i) => ({ k: i, a: XV[k]![2] })), ['k', 'a'], 'xlsx', len === 1 ? 'My Sheet' : undefined);
			const wb = new ExcelJS.Workbook(); const ws = wb.addWorksheet('My Sheet'); ws.addRow(['k', 'a']); s.forEach((k, i) => ws.addRow([i, XV[k]![1]])); await wb.xlsx.writeFile(f);
		}
		for (const late of [1.5, 's', true, new Date(86400000)]) { if (!mine(n++)) continue; for (const at of [1, 49, 50, 60, 200]) { const f = addSrc('xlsx', `a ${typeof late} in row ${at + 1}`, [], [], 'xlsx'); const wb = new ExcelJS.Workbook(), ws = wb.addWorksheet('S'); ws.addRow(['a']); for (let i = 0; i <= at; i++) ws.addRow([i === at ? late : i]); await wb.xlsx.writeFile(f); jobs[jobs.length - 1]![2] = [{ late, at }]; } }
		if (mine(n++)) { const f = addSrc('xlsx', 'two sheets', [{ b: 9 }], ['b'], 'xlsx', 'Two & more'); const wb = new ExcelJS.Workbook(); wb.addWorksheet('One').addRows([['a'], [1]]); wb.addWorksheet('Two & more').addRows([['b'], [9]]); await wb.xlsx.writeFile(f); }
		if (mine(n++)) { const f = addSrc('xlsx', 'equal titles', [{ a: 1, q: 3 }], ['a', 'q'], 'xlsx'); const wb = new ExcelJS.Workbook(); wb.addWorksheet('S').addRows([['a', 'a', 'q'], [1, 2, 3]]); await wb.xlsx.writeFile(f); }
		// avro
		const AT: [any, any[]][] = [['int', [1, -2, 2147483647]], ['long', [1, -4000000000123]], ['string', ['a', '', `é"'`]], [['null', 'string'], [null, 'x', '']], [['long', 'null'], [null, 5]], [['null', 'boolean'], [null, true, false]], ['boolean', [true, false]], ['double', [1.5, -1e300]], ['float', [1.5]], [{ type: 'enum', name: 'E', symbols: ['A', 'B'] }, ['A', 'B']], [{ type: 'array', items: 'int' }, [[1, 2], []]], [{ type: 'map', values: 'int' }, [{ a: 1 }, {}]], [['null', { type: 'array', items: 'int' }], [null, [1]]], [{ type: 'record', name: 'R', fields: [{ name: 'z', type: 'int' }] }, [{ z: 1 }]], [['null', 'double'], [null, 0.25]]];
		for (const [type, vals] of AT) for (const len of [0, 1, 2, 3]) for (const s of sequences(vals.length, len)) {
			if (!mine(n++)) continue;
			const f = addSrc('avro', `${JSON.stringify(type)} ${JSON.stringify(s.map(k => vals[k]))}`, s.map((k, i) => ({ k: i, a: vals[k] })), ['k', 'a'], 'avro');
			const enc = avsc.createFileEncoder(f, avsc.Type.forSchema({ type: 'record', name: 'O', fields: [{ name: 'k', type: 'int' }, { name: 'a', type }] }), { writeHeader: true });
			await new Promise<void>(r => { enc.on('finish', () => r()); s.forEach((k, i) => enc.write({ k: i, a: vals[k] })); enc.end(); });
			for (let w = 0; w < 100 && (!fs.existsSync(f) || fs.statSync(f).size < 60); w++) await new Promise(r => setTimeout(r, 1));
		}
		// fixed-width text: every line over the alphabet, under layouts with and without trimming and a title line
		const lines = ['ab  1', 'a', '', ' x-99', 'zz2.5', 'tt  y', 'c 1-2', 'd 3x '];
		for (const [t, i, h] of [...product(['string', 'integer', 'number', 'boolean'], [0, 2], [false, true])] as [string, number, boolean][]) for (const s of sequences(lines.length, 2)) {
			if (!mine(n++)) continue;
			const ls = s.map(k => lines[k]!); const trim = i === 0;
			const rows = (h ? ls.slice(1) : ls).map(l => { const v = l.slice(2, 5), u = trim ? v.trim() : v; let a: any = u === '' ? null : t === 'string' ? u : t === 'boolean' ? ({ y: true, t: true, '1': true, true: true, n: false, f: false, '0': false, false: false } as any)[u.toLowerCase()] ?? null : 'num'; if (a === 'num') { const x = Number(u.trim()); a = u.trim() !== '' && Number.isFinite(x) && (t === 'number' || Number.isInteger(x)) ? x : t === 'number' ? null : 'any'; } return { a, b: (trim ? l.slice(0, 2).trim() : l.slice(0, 2)) || null }; });
			const f = addSrc('fixed-width', `${JSON.stringify(ls)} as ${t}${trim ? '' : ' untrimmed'}${h ? ' after a title' : ''}`, rows, ['a', 'b'], 'txt');
			conns[conns.length - 1].options = { columns: [{ name: 'b', start: 0, length: 2, type: 'string' }, { name: 'a', start: 2, length: 3, type: t }], ...(trim ? {} : { trim: false }), ...(h ? { skipFirstLine: true } : {}) };
			fs.writeFileSync(f, ls.map(l => l + '\n').join(''));
		}
		if (mine(n++)) { const f = addSrc('avro', 'not an avro file', 'refused' as any, [], 'avro'); fs.writeFileSync(f, 'hello'); }
		await CF.saveConnections(RC, { connections: conns }); PC._resetCacheForTests();
		for (const [id, what, rows, cols, target] of jobs) {
			const [kind, w] = [what.slice(0, what.indexOf('|')), what.slice(what.indexOf('|') + 1)];
			const got = await Promise.race([sample(RC, id, target), new Promise<string>(r => setTimeout(() => r('no answer'), 10_000))]); chk.traces++; if (rows.length > 1) chk.nontrivial++;
			if ((rows as any) === 'refused') { if (typeof got !== 'string' || got === 'no answer') V('avro refuse', `${w}: ${JSON.stringify(got)}`); continue; }
			if (rows.length === 1 && rows[0].at !== undefined) {
				const { late, at } = rows[0]; if (typeof got === 'string') { V('xlsx late', `${w}: ${got}`); continue; }
				const agg = await getTool('db_file_aggregate').execute({ connectionId: id, aggregations: [{ column: '*', function: 'count' }, { column: 'a', function: 'count_non_null' }] }, { repoPath: RC });
				const v = Object.values(agg.data?.values ?? {}); if (v.some(x => x !== at + 1)) V('xlsx late', `xlsx ${w}: counts ${v}, want ${at + 1}`);
				const tail = await getTool('db_file_distinct').execute({ connectionId: id, column: 'a', topN: 50 }, { repoPath: RC });
				if (at < 49) { const vals = (tail.data?.topValues ?? []).map((x: any) => x?.value ?? x); if (!vals.some((x: any) => same(plain(x), late, true))) V('xlsx late value', `xlsx ${w}: the value is not among ${JSON.stringify(vals).slice(0, 200)}`); }
				const filt = await getTool('db_file_sample').execute({ connectionId: id, limit: 5, where: [{ column: 'a', op: 'in', value: typeof late === 'number' ? [1.5] : typeof late === 'boolean' ? ['true'] : [late instanceof Date ? late.toISOString() : late] }] }, { repoPath: RC });
				if (!filt.success || rowsOf(filt.data).length !== 1) V('xlsx late value', `xlsx ${w}: the value is not found: ${JSON.stringify(filt.data?.rows ?? filt.error)}`);
				continue;
			}
			const any = kind === 'fixed-width' && typeof got !== 'string' ? rows.map((r: any, i: number) => r.a === 'any' ? { ...r, a: got[i]?.a ?? null } : r) : rows;
			await compare(kind, w, any, cols, got);
		}
		await PC.closeAll();
	});
	Object.assign(chk.extra, ext);
	if (chk.traces < 2000) V('machinery', 'fewer cases than expected', { n: chk.traces });
	chk.assumptions = ['a source edited without changing its time and size is not recognised', 'probing the source, writing, moving and noting a copy and each half of a conversion are the points at which actors may be overtaken', 'BSON doubles that are not numbers, integers beyond 2^53 and documents without fields are not in the alphabet'];
	await chk.finish();
});
