// C21: configuration reconcile keeps everything it does not own, is idempotent, and replaces the file atomically or not at all.
import { Check, main, THOROUGH, canon, SHARD, repo, product } from '../lib/mc.mts';

let R: any, IO: any, W: any, CAT: any;
const freeze = (o: any): any => { if (o && typeof o === 'object' && !Object.isFrozen(o)) { Object.freeze(o); Object.values(o).forEach(freeze); } return o; };
const obj = (v: any): boolean => typeof v === 'object' && v !== null && !Array.isArray(v);
const typed = (v: any, t: string): boolean => t === 'number' ? typeof v === 'number' : t === 'boolean' ? typeof v === 'boolean' : typeof v === 'string';
const NONE = Symbol('none');
function get(d: any, path: string): any { let c = d; for (const k of path.split('.')) { if (!obj(c) || !Object.hasOwn(c, k)) return NONE; c = c[k]; } return c; }
function del(d: any, path: string): void { const ks = path.split('.'); let c = d; for (const k of ks.slice(0, -1)) c = c[k]; delete c[ks.at(-1)!]; }
function put(d: any, path: string, v: any): void { const ks = path.split('.'); let c = d; for (const k of ks.slice(0, -1)) { if (!obj(c[k])) c[k] = {}; c = c[k]; } c[ks.at(-1)!] = v; }
interface Row { path: string; type: string; default: any } interface Mig { from: string; to: string; transform?: (v: any) => any }
/** what reconciling must yield, written on a private deep copy */
function spec(ex: any, cat: Row[], ret: { path: string }[], mig: Mig[]): any {
	const d = obj(ex) ? structuredClone(ex) : {}; const o: any = { config: d, carried: [], filled: [], repaired: [], pruned: [], migrated: [] };
	for (const m of mig) { const v = get(d, m.from); if (v !== NONE && get(d, m.to) === NONE) { put(d, m.to, m.transform ? m.transform(v) : v); del(d, m.from); o.migrated.push(`${m.from} → ${m.to}`); } }
	for (const r of cat) {
		const ks = r.path.split('.'); let c: any = d, bad: any = NONE;
		for (const [i, k] of ks.entries()) { if (!obj(c)) { if (c !== undefined) bad = c; c = NONE; break; } if (!Object.hasOwn(c, k)) { c = NONE; break; } c = c[k]; if (i === ks.length - 1 && !typed(c, r.type)) bad = c; }
		if (c !== NONE && bad === NONE) o.carried.push(r.path);
		else { put(d, r.path, structuredClone(r.default)); if (bad === NONE) o.filled.push(r.path); else o.repaired.push({ path: r.path, discarded: bad }); }
	}
	for (const r of ret) if (get(d, r.path) !== NONE) { del(d, r.path); o.pruned.push(r.path); }
	o.changed = o.migrated.length + o.filled.length + o.repaired.length + o.pruned.length > 0;
	return o;
}
function judge(ex: any, cat: Row[], ret: any[], mig: Mig[]): string | null {
	const before = canon(ex); freeze(ex); const catBefore = canon(cat); let got: any;
	try { got = R.reconcileConfig(ex, cat, ret, mig); } catch (e) { return `threw ${(e as Error).message}`; }
	if (canon(ex) !== before) return 'the input document was modified'; if (canon(cat) !== catBefore) return 'the catalogue was modified';
	const w = spec(ex, cat, ret, mig), pick = (x: any): any => ({ changed: x.changed, config: x.config, carried: x.carried, filled: x.filled, repaired: x.repaired, pruned: x.pruned, migrated: x.migrated });
	for (const k of ['config', 'migrated', 'carried', 'filled', 'repaired', 'pruned', 'changed']) if (canon(pick(got)[k]) !== canon(w[k])) return `${k} is ${canon(got[k])?.slice(0, 200)}, expected ${canon(w[k])?.slice(0, 200)}`;
	// nothing that is not ours is lost: every leaf not under a catalogue, retired or migrated path survives
	const owned = [...cat.map(r => r.path), ...ret.map(r => r.path), ...mig.flatMap(m => [m.from, m.to])];
	const walk = (d: any, p: string): string | null => { if (obj(d) && Object.keys(d).length) { for (const k of Object.keys(d)) { const b = walk(d[k], p ? `${p}.${k}` : k); if (b) return b; } return null; } if (!p || owned.some(o => o === p || o.startsWith(`${p}.`) || p.startsWith(`${o}.`))) return null; return canon(get(got.config, p)) === canon(d) ? null : `${p} was lost`; };
	if (obj(ex)) { const b = walk(ex, ''); if (b) return b; }
	freeze(got.config); const again = R.reconcileConfig(got.config, cat, ret, mig);
	if (again.changed || canon(again.config) !== canon(got.config)) return `a second pass still changes the document (${canon({ f: again.filled, r: again.repaired, p: again.pruned, m: again.migrated })})`;
	return null;
}
const CAT1: Row[] = [{ path: 'a', type: 'number', default: 1 }, { path: 'b.c', type: 'string', default: 'x' }, { path: 'b.d.e', type: 'boolean', default: false }, { path: 'm.t', type: 'enum', default: 'q' }].map(r => ({ ...r, desc: 'd' }));
const RET1 = [{ path: 'r' }, { path: 'b.old', prefix: true }, { path: 'z', prefix: true }];
const MIG1: Mig[] = [{ from: 'old.c', to: 'b.c' }, { from: 'z.y', to: 'm.t', transform: v => `t:${String(v)}` }, { from: 'big', to: 'b.dyn' }];
function* docs(): Generator<any> {
	for (const v of [undefined, null, [], [1], 'text', '', 0, 7, true, false]) yield v;
	const A = [NONE, 5, 0, 'bad', null, [], { k: 1 }], M = [NONE, {}, { t: 'u' }, { t: 4, keep: [1] }, 3, null], OLD = [NONE, { c: 'mig' }, { c: 9 }, { c: 'mig', keep: { x: 1 } }, 4], Z = [NONE, { y: 0 }, { y: 's', w: 1 }, {}], RR = [NONE, 0, { x: 1 }, null], BIG = [NONE, { deep: [1] }, 7];
	const B: any[] = [NONE, 7, [], null, ''];
	for (const [c, d, o, x] of product<any>([NONE, 's', '', 3, null], [NONE, 'scalar', {}, { e: true }, { e: 0, keep: 1 }, []], [NONE, 1, { x: 1 }], [NONE, { 'dotted.key': { '/abs/path': 1 } }])) { const b: any = {}; if (c !== NONE) b.c = c; if (d !== NONE) b.d = d; if (o !== NONE) b.old = o; if (x !== NONE) b.dyn = x; B.push(b); }
	for (const [i, [m, old, z, r, big]] of [...product<any>(M, OLD, Z, RR, BIG)].entries()) for (const [j, b] of B.entries()) {
		const As = THOROUGH ? A : [A[(i + j) % A.length]];
		for (const a of As) { const d: any = { keep: { me: [{ x: 1 }] } }; for (const [k, v] of Object.entries({ a, b, m, old, z, r, big })) if (v !== NONE) d[k] = v; yield structuredClone(d); }
	}
	for (const a of A) for (const b of B) yield structuredClone({ ...(a === NONE ? {} : { a }), ...(b === NONE ? {} : { b }) });
}
/** documents around the shipped catalogue: one or two deviations from a complete config, and every migration */
function* shipped(full: any): Generator<any> {
	const rows: Row[] = CAT.CONFIG_CATALOG, other: Record<string, any> = { number: 77, string: 'other', enum: 'other', boolean: true };
	const dev = rows.flatMap(r => [['absent', (d: any) => { if (get(d, r.path) !== NONE) del(d, r.path); }], ['wrong', (d: any) => put(d, r.path, r.type === 'number' ? '5' : 5)], ['null', (d: any) => put(d, r.path, null)], ['other', (d: any) => put(d, r.path, other[r.type])], ['collide', (d: any) => { const p = r.path.split('.').slice(0, -1).join('.'); if (p) put(d, p, 'scalar'); }]] as [string, (d: any) => void][]);
	const legacy: any[] = [{ analyze: { tiers: { core: { runner: 'ollama', model: 'm' } }, roleTiers: { 'a.b': 'core' }, coreFloor: 'cheap', shaper: { maxToolTurns: 3 }, maxPlanDepth: { XS: 9 }, shaperProvider: 'ollama', byRepo: { '/x.y/z': { roleTiers: { q: 'mid' }, shaperProvider: 'cli-codex', shaperModel: 'g', keep: 1 }, '/t': { tiers: { core: { runner: 'ollama', model: 'k' } }, shaperModel: 'g' }, '/n': 5, '/m': { tiers: { mid: { runner: 'ollama', model: 'k' } }, shaperProvider: 'ollama' } } } }, { providers: { local: { host: 'h', coreModel: 'c', extra: 1 }, other: 1 } }];
	yield undefined; yield {}; yield structuredClone(full);
	const nest = legacy.flatMap(l => Object.entries(l).flatMap(([ns, body]) => [NONE, ...Object.keys(body as any)].map(k => [ns, k === NONE ? body : { [k as string]: (body as any)[k as string] }] as [string, any])));
	for (const base of [{}, { models: {} }, { models: { tiers: { mid: { runner: 'x', model: 'y' } }, tasks: { r: 'core' } } }, { models: { local: {} , byRepo: {} } }, { models: 5 }]) for (const [ns, body] of nest) for (const [ns2, body2] of [...nest, [NONE, null]] as [any, any][]) { const d: any = structuredClone(base); if (obj(d.models) || d.models === undefined) { d.models ??= {}; d.models[ns] = structuredClone(body); if (ns2 !== NONE) d.models[ns2] = { ...d.models[ns2], ...structuredClone(body2) }; } yield d; }
	for (const [, f] of dev) { const d = structuredClone(full); f(d); yield d; const e: any = {}; f(e); yield e; }
	for (let i = 0; i < dev.length; i++) for (let j = i + 1; j < dev.length; j += THOROUGH ? 1 : 3) { const d = structuredClone(full); d.models.byRepo = { '/r.x': { tasks: { 'a.b': 'core' } } }; dev[i]![1](d); dev[j]![1](d); yield d; }
}
// ------------------------------------------------------------------ the file: every fault, interference and crash point
interface Disk { cfg: string | null; tmp: string | null; mtime: number }
type Fault = { at: number; kind: string };
function runFile(initial: string | null, fault: Fault, cat: Row[], ext: string): { bad: string | null; ops: number } {
	const P = '/virtual/config.json'; const disk: Disk = { cfg: initial, tmp: null, mtime: 1 }; let n = 0, extApplied = false, wroteTmp = false, failedUnlink = false; const trace: string[] = [];
	let legit: (string | null)[] = [initial]; let full: string | null = null; let bad: string | null = null, others = new Set<string>();
	const see = (where: string): void => { if (!bad && !legit.includes(disk.cfg) && disk.cfg !== full) bad = `a crash ${where} would leave ${JSON.stringify(disk.cfg)?.slice(0, 80)}`; };
	const err = (code: string): Error => Object.assign(new Error(`${code}: injected`), { code });
	const step = (name: string): void => {
		trace.push(name); const k = n++;
		if (k === fault.at) {
			if (fault.kind === 'ext-new' || fault.kind === 'ext-same') { if (k > 0 && !wroteTmp) { extApplied = true; disk.cfg = ext; disk.mtime++; legit = [ext]; } }
			else if (fault.kind === 'ext-size') { if (k > 0 && !wroteTmp) { extApplied = true; disk.cfg = `${ext}    ${initial ?? ''}`; legit = [disk.cfg]; } }
			else if (fault.kind !== 'none' && !(fault.kind === 'ENOENT' && (name === 'read' || name === 'stat'))) { if (name === 'unlink') failedUnlink = true; throw err(fault.kind); }
		}
	};
	const file = (p: string): 'cfg' | 'tmp' => { if (p === P) return 'cfg'; others.add(p); return 'tmp'; };
	const fs = {
		readFileSync: (p: string) => { step('read'); const c = disk[file(p)]; if (c === null) throw err('ENOENT'); return c; },
		statSync: (p: string) => { step('stat'); const c = disk[file(p)]; if (c === null) throw err('ENOENT'); return { mtimeMs: disk.mtime, size: c.length }; },
		writeFileSync: (p: string, data: string) => { const f = file(p); if (f === 'tmp') { disk.tmp = ''; } else disk.cfg = ''; see('while creating the file'); if (f === 'tmp') disk.tmp = data.slice(0, data.length >> 1); else disk.cfg = data.slice(0, data.length >> 1); see('in the middle of a write'); wroteTmp = true; step('write'); disk[f] = data; if (f === 'cfg') disk.mtime++; see('after a write'); },
		renameSync: (a: string, b: string) => { step('rename'); const f = file(a), g = file(b); full = reference(initial, cat); const v = disk[f]; if (v === null) throw err('ENOENT'); disk[f] = null; disk[g] = v; disk.mtime++; see('after the rename'); },
		unlinkSync: (p: string) => { step('unlink'); const f = file(p); if (disk[f] === null) throw err('ENOENT'); disk[f] = null; see('after an unlink'); },
	};
	let out: any; try { out = IO.reconcileConfigFile({ configPath: P, catalog: cat, fs }); } catch (e) { return { bad: `threw ${(e as Error).message} (calls ${trace.join(',')})`, ops: n }; }
	if (bad) return { bad, ops: n };
	if (others.size > 1) return { bad: `touched several other files: ${[...others].join(', ')}`, ops: n };
	const done = out.kind === 'written' || out.kind === 'first-boot';
	const kinds = ['written', 'first-boot', 'unchanged', 'read-error', 'parse-error', 'catalog-error', 'write-error', 'concurrent-modification'];
	if (!kinds.includes(out.kind)) bad = `unknown outcome ${out.kind}`;
	else if (extApplied && disk.cfg !== legit[0]) bad = `an edit made while reconciling was overwritten (outcome ${out.kind})`;
	else if (extApplied && done) bad = `outcome ${out.kind} although another edit came first`;
	else if (!extApplied && done && disk.cfg !== reference(initial, cat)) bad = `outcome ${out.kind} but the file holds ${disk.cfg?.slice(0, 120)}`;
	else if (!extApplied && !done && disk.cfg !== initial) bad = `outcome ${out.kind} but the file changed to ${disk.cfg?.slice(0, 120)}`;
	else if (disk.tmp !== null && !failedUnlink) bad = `a temporary file is left behind after ${out.kind}`;
	else if (fault.kind === 'none' || (fault.at >= n)) {
		let want: string; let parsed: any; try { parsed = initial === null ? undefined : JSON.parse(initial); const r0 = R.reconcileConfig(parsed, cat); want = initial === null ? 'first-boot' : r0.changed ? 'written' : 'unchanged'; } catch (e) { want = (e as Error).name === 'ConfigCatalogError' ? 'catalog-error' : 'parse-error'; }
		if (out.kind !== want) bad = `outcome ${out.kind} for ${JSON.stringify(initial)?.slice(0, 60)}, expected ${want}`;
	} else if (!extApplied && !fault.kind.startsWith('ext')) {
		const failed = trace[fault.at];
		if (failed === 'read' && fault.kind !== 'ENOENT' && out.kind !== 'read-error') bad = `a failing read (${fault.kind}) gave outcome ${out.kind}`;
		if ((failed === 'write' || failed === 'rename') && out.kind !== 'write-error') bad = `a failing ${failed} gave outcome ${out.kind}`;
	}
	return { bad: bad && `${bad} (calls ${trace.join(',')})`, ops: n };
}
const refs = new Map<string, string>();
function reference(initial: string | null, cat: Row[]): string { const k = `${initial}|${cat.length}`; let r = refs.get(k); if (r === undefined) { r = ''; try { r = `${JSON.stringify(R.reconcileConfig(initial === null ? undefined : JSON.parse(initial), cat).config, null, 2)}\n`; } catch { /* corrupt */ } refs.set(k, r); } return r; }
// ------------------------------------------------------------------ setting one value
function setting(root: any, path: any, value: any): string | null {
	const before = structuredClone(root); const segs: string[] = Array.isArray(path) ? path : String(path).split('.'); const valid = segs.length > 0 && segs.every(s => s.length > 0);
	let threw = false; try { W.setConfigAtPath(root, path, value); } catch (e) { threw = true; if ((e as Error).name !== 'ConfigPathError') return `threw ${(e as Error).name}`; }
	const leaked = Object.keys(Object.prototype); if (leaked.length || ({} as any).polluted !== undefined) { for (const k of leaked) delete (Object.prototype as any)[k]; return 'every object of the process was changed'; }
	if (!valid) return !threw ? 'an invalid path was accepted' : canon(root) !== canon(before) ? 'an invalid path changed the document' : null;
	if (threw) return 'a valid path was refused';
	const want = (d: any, i: number): any => { if (i === segs.length) return value; const base = obj(d) ? d : {}; const o: any = {}; for (const k of Object.keys(base)) own(o, k, base[k]); own(o, segs[i]!, want(Object.hasOwn(base, segs[i]!) ? base[segs[i]!] : undefined, i + 1)); return o; };
	return JSON.stringify(sortAll(root)) === JSON.stringify(sortAll(want(before, 0))) ? null : `the document became ${JSON.stringify(root)}`;
}
function own(o: any, k: string, v: any): void { Object.defineProperty(o, k, { value: v, enumerable: true, writable: true, configurable: true }); }
function sortAll(v: any): any { if (Array.isArray(v)) return v.map(sortAll); if (!obj(v)) return v; const o: any = {}; for (const k of Object.keys(v).sort()) own(o, k, sortAll(v[k])); return o; }

main(async () => {
	const chk = new Check('C21', 'fault_enumeration');
	R = await repo('src/config/reconcile.ts'); IO = await repo('src/config/reconcile-io.ts'); W = await repo('src/config/write-path.ts'); CAT = await repo('src/config/config-catalog.ts');
	chk.rule = 'every document in the bound against an independent specification; every filesystem fault, interfering edit and crash point of the rewrite';
	chk.extra['bounds'] = 'about 270 k small documents over a 4-key catalogue with 3 retired paths and 3 migrations (quick: one value of one slot per combination); the shipped catalogue with every one and two deviations and every legacy shape; file rewrite: 16 initial contents incl. every truncation x every call x 7 faults; every path of up to 3 segments over 9 names for single writes';
	await chk.sharded(async mine => {
		let i = 0;
		for (const d of docs()) { if (!mine(i++)) continue; chk.evaluations++; const bad = judge(d, CAT1, RET1, MIG1); if (obj(d)) chk.nontrivial++; if (bad) { chk.violation(`doc ${JSON.stringify(d)}`.slice(0, 300), `reconciling ${JSON.stringify(d)}: ${bad}`, { doc: d }); return; } if (i % 9973 === 0) chk.sample(d); }
		const full = R.reconcileConfig(undefined).config;
		for (const d of shipped(full)) { if (!mine(i++)) continue; chk.evaluations++; const bad = judge(d, CAT.CONFIG_CATALOG, CAT.RETIRED_PATHS, CAT.CONFIG_MIGRATIONS); if (bad) { chk.violation(`shipped ${canon(d)}`.slice(0, 300), `reconciling with the shipped catalogue: ${bad} — document ${JSON.stringify(d)?.slice(0, 300)}`, { doc: d }); return; } }
		const good = `${JSON.stringify({ a: 1, b: { c: 's', d: { e: true } }, m: { t: 'u' }, keep: { x: [1] } }, null, 2)}\n`, stale = JSON.stringify({ a: 'bad', keep: { 'x.y': 1 } });
		const initials: (string | null)[] = [null, good, stale, '', ' ', '{}', 'null', '[]', '7', '"s"', ...Array.from({ length: stale.length - 1 }, (_, k) => stale.slice(0, k + 1))];
		const badCat: Row[] = [...CAT1, { path: 'q', type: 'number', default: 'not a number', desc: 'd' } as any];
		for (const cat of [CAT1, badCat]) for (const ini of initials) for (const ext of [JSON.stringify({ a: 42, mine: true }), (ini ?? '').replace(/./g, '9')]) {
			if (!mine(i++)) continue;
			const base = runFile(ini, { at: -1, kind: 'none' }, cat, ext); chk.states++;
			if (base.bad) { chk.violation(`file ${JSON.stringify(ini)}`, `config file ${JSON.stringify(ini)}: ${base.bad}`, { initial: ini }); return; }
			for (let at = 0; at < base.ops + 2; at++) for (const kind of ['EACCES', 'ENOENT', 'EIO', 'ENOSPC', 'ext-new', 'ext-same', 'ext-size']) {
				chk.evaluations++; chk.nontrivial++; const r = runFile(ini, { at, kind }, cat, ext);
				if (r.bad) { chk.violation(`file ${JSON.stringify(ini)} ${kind}@${at}`, `config file ${JSON.stringify(ini)?.slice(0, 120)}, ${kind} at filesystem call ${at}: ${r.bad}`, { initial: ini, fault: kind, at }); return; }
			}
		}
		const names = ['a', 'b', 'a.b', '', '__proto__', 'constructor', 'toString', '/r.x/y', '0'];
		const roots = [{}, { a: 1 }, { a: { b: 2, k: [1] } }, { a: [1, 2], b: null }, { a: { a: { a: 1 } }, constructor: 'mine' }];
		for (const root of roots) for (const len of [0, 1, 2, 3]) for (const segs of product<string>(...Array.from({ length: len }, () => names))) for (const v of [1, null, { x: [1] }]) for (const asText of [false, true]) {
			if (!mine(i++)) continue; chk.evaluations++;
			const p = asText ? segs.join('.') : segs; const bad = setting(structuredClone(root), p, v);
			if (bad) { chk.violation(`set ${JSON.stringify(p)} in ${JSON.stringify(root)}`, `setting ${JSON.stringify(p)} to ${JSON.stringify(v)} in ${JSON.stringify(root)}: ${bad}`, { root, path: p, value: v }); return; }
		}
	});
	chk.finish();
});
