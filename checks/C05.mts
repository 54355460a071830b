// C05: schema migration of every small stored graph, from every older version, failing at every write.
import { Check, main, THOROUGH, canon, subsets, repo } from '../lib/mc.mts';
import { createHash } from 'node:crypto';
import { openCtx, dump, restore, structural, val, u32, u64, type Dump } from '../lib/store.mts';
import { ent, A, B } from '../lib/graphdom.mts';
import { REPO } from '../lib/mc.mts';
import { createRequire } from 'node:module';
const { pack } = createRequire(REPO + '/package.json')('msgpackr');

const idOf = (ns: string, kind: string, name: string): string => createHash('sha256').update(`${ns}\x00\x00${kind}\x00${name}`).digest('hex').slice(0, 32);
const mod = (ns: string, lang: string, name: string): any => ent(idOf(ns, 'module', name), 'module', name, '', '', { language: lang });
const M = { npm: mod('npm', 'typescript', 'lodash'), py: mod('python', 'python', 'os'), jvm: mod('jvm', 'java', 'java.util'), go: mod('go', 'go', 'fmt') };
const edge = (from: string, kind: string, to: string): any => ({ from, to, kind, resolved: true });
const comps = ['a', 'a2', 'b', 'npm', 'py+jvm', 'go', 'edges', 'side'] as const;
const s2b = (s: string): Buffer => Buffer.from(s, 'latin1');
const b2s = (b: Uint8Array): string => Buffer.from(b).toString('latin1');
const be = (n: bigint | number, w: 4 | 8): string => { const b = Buffer.alloc(w); if (w === 8) b.writeBigUInt64BE(BigInt(n)); else b.writeUInt32BE(Number(n)); return b2s(b); };

main(async () => {
	const chk = new Check('C05', 'fault_enumeration');
	chk.assumptions.push('an LMDB transaction is atomic on disk', 'stored data of version 1 and 2 has the layout described in migrations.ts (no derived indices in v1, module entities under an empty-path repo row before v3)');
	chk.rule = 'every combination of graph components x stored version x legacy shape, migrated undisturbed and with a failure at every write, then resumed';
	await chk.sharded(async mine => {
		Date.now = () => 1_700_000_000_000;
		const c = await openCtx();
		const MIG = await repo('src/db/graph/migrations.ts'); const ST = c.ST; const SV = ST.SCHEMA_VERSION;
		const empty = dump(c);
		let arm = -1, count = 0;
		for (const db of new Set(Object.values(c.store).filter((v: any) => v && typeof v.put === 'function' && v !== c.root)) as Set<any>) for (const m of ['put', 'remove']) {
			const o = db[m].bind(db); db[m] = (...a: any[]) => { count++; if (arm >= 0 && arm-- === 0) { arm = -2; throw new Error('injected'); } return o(...a); };
		}
		let n = 0;
		for (const sel of subsets(comps)) for (const ghost of ['none', 'row', 'entities'] as const) {
			if (!mine(n++)) continue;
			const on = (x: string): boolean => sel.includes(x as never);
			restore(c, empty); arm = -1;
			await c.R.addRepo(null, { kind: 'workspace', path: A, name: '', addedAt: '2024-01-01T00:00:00.000Z', status: 'ready' });
			await c.R.addRepo(null, { kind: 'workspace', path: B, name: '', addedAt: '2024-01-01T00:00:00.000Z', status: 'pending' });
			const es: any[] = [];
			if (on('a')) es.push(ent('a1', 'function', 'f', A, A + '/x.ts', { isExported: true }), ent('a3', 'class', 'C', A, A + '/x.ts'));
			if (on('a2')) es.push(ent('a2', 'function', 'f', A, A + '/y.ts'));
			if (on('b')) es.push(ent('b1', 'method', 'f', B, B + '/x.ts'));
			if (on('npm')) es.push(M.npm); if (on('py+jvm')) es.push(M.py, M.jvm); if (on('go')) es.push(M.go);
			await c.E.upsertEntities(null, es);
			if (on('edges')) await c.REL.upsertRelations(null, [edge('a1', 'CALLS', 'a2'), edge('a1', 'CALLS', 'b1'), edge('a1', 'IMPORTS', M.npm.id), edge('a2', 'IMPORTS', M.npm.id), edge('b1', 'IMPORTS', M.py.id), edge('b1', 'IMPORTS', M.jvm.id), edge('a3', 'IMPORTS', M.go.id)]);
			if (on('side')) { await c.REL.upsertRelation(null, { from: 'a1', to: 'foo', kind: 'CALLS', resolved: false, meta: { repo: A, file: A + '/x.ts' } }); await c.XC.putCachedExploration(A, 5n, { type: 'concept.resolve', params: { q: 1 } }, { type: 'concept.resolve', n: 1 }); }
			const cur = dump(c); const sv0 = structural(cur); if (sv0) throw new Error(`harness: ${sv0}`);
			for (let v = 1; v < SV; v++) {
				// downgrade
				const old: Dump = structuredClone(cur);
				const setv = (d: Dump, x: number): void => { d.db['meta'] = d.db['meta']!.map(([k, w]) => (k.includes('schema_version') ? [k, b2s(pack(x))] : [k, w])); };
				setv(old, v);
				let ghostIds: string[] = [];
				if (v < 3) {
					const gid = 900, rid = 901;
					const rev = new Map(old.db['entity_string_by_u64']!);
					old.db['repo'] = old.db['repo']!.filter(([, w]) => val(w).kind !== 'shared-modules').map(([k, w]) => { const r = val(w); delete r.kind; return [k, b2s(pack(r))]; });
					const mods = old.db['entity']!.filter(([, w]) => val(w).kind === 'module');
					if (mods.length || ghost !== 'none') old.db['repo']!.push([be(gid, 4), b2s(pack({ id: gid, path: '', name: '', addedAt: 1, lastIndexed: 0, status: 'pending', errorMsg: '' }))]);
					for (const e of mods) {
						const r = val(e[1]); const u = e[0]; const was = r.repoId; r.repoId = gid; e[1] = b2s(pack(r));
						const oid = idOf('', 'module', r.name); const nid = [...Object.values(M)].find(m => m.name === r.name)!.id;
						const enc = rev.get(u)!; rev.set(u, enc.replace(nid, oid));
						old.db['entity_id_by_string'] = old.db['entity_id_by_string']!.map(([k, w]) => [k.replace(nid, oid), w]);
						old.db['name_index'] = old.db['name_index']!.map(([k, w]) => (w === u ? [be(gid, 4) + k.slice(4), w] : [k, w])); void was;
					}
					old.db['entity_string_by_u64'] = [...rev];
					if (ghost === 'entities') {
						// a repo row with a relative path, owning entities connected to real ones
						old.db['repo']!.push([be(rid, 4), b2s(pack({ id: rid, path: 'rel/x', name: 'x', addedAt: 1, lastIndexed: 0, status: 'pending', errorMsg: '' }))]);
						const tmpl = cur.db['entity']![0] ? val(cur.db['entity']![0][1]) : null;
						const us = old.db['entity']!.map(([k]) => u64(k));
						let next = 5000n; const mk = (id: string, owner: number, kind: string, kb: number): bigint => {
							const u = next++; const row = { ...(tmpl ?? {}), repoId: owner, kind, name: 'ghost', filePath: 'g.ts' };
							old.db['entity']!.push([be(u, 8), b2s(pack(row))]);
							const sample = cur.db['entity_id_by_string']![0]; if (!sample) return u;
							old.db['entity_string_by_u64']!.push([be(u, 8), id]); old.db['entity_id_by_string']!.push([id + (sample[0].endsWith('\0') ? '\0' : ''), b2s(pack(u))]);
							old.db['name_index']!.push([be(owner, 4) + String.fromCharCode(kb) + 'ghost', be(u, 8)]); ghostIds.push(id); return u;
						};
						if (tmpl) {
							const g1 = mk('ghost1', rid, 'function', 4), g2 = mk('ghost2', gid, 'function', 4);
							const e1 = (f: bigint, k: number, t: bigint): void => { old.db['out_edge']!.push([be(f, 8) + String.fromCharCode(k) + be(t, 8), b2s(pack({}))]); old.db['in_edge']!.push([be(t, 8) + String.fromCharCode(k) + be(f, 8), b2s(pack({}))]); };
							const k = 3; e1(g1, k, g2); e1(g2, k, g1); e1(g1, k, us[0]!); e1(us[us.length - 1]!, k, g1); e1(g2, k, us[0]!); e1(g1, k, g1);
						}
					}
				} else if (ghost !== 'none') continue;
				if (v < 2) { old.db['entity_string_by_u64'] = []; old.db['name_index'] = []; }
				for (const n2 of Object.keys(old.db)) old.db[n2]!.sort((x, y) => (x[0] < y[0] ? -1 : x[0] > y[0] ? 1 : x[1] < y[1] ? -1 : 1));
				const label = `[${sel}] v${v} ghosts=${ghost}`;
				const expect = ((): string => norm(cur, SV))();
				const verify = (what: string): boolean => {
					const d = dump(c);
					const bad = structural(d); if (bad) { chk.violation(`mig:${v}:${bad.replace(/\d+/g, '#')}`, `${label} ${what}: ${bad}`, { label, what }); return false; }
					const got = norm(d, SV);
					if (got !== expect) { chk.violation(`migdiff:${v}:${ghost}`, `${label} ${what}: the migrated graph differs from the original: ${firstDiff(got, expect)}`, { label, what }); return false; }
					return true;
				};
				restore(c, old); const before = canon(dump(c)); count = 0;
				await MIG.runMigrations(c.store, v, SV); const writes = count;
				chk.states++; chk.evaluations++; chk.transitions += SV - v;
				if (!verify('migrated')) continue;
				if (await MIG.runMigrations(c.store, SV, SV) !== 0 || !verify('migrated twice')) continue;
				const full = THOROUGH || sel.length >= 7 || sel.length <= 1;
				for (let k = 0; k < writes; k += full ? 1 : 5) {
					restore(c, old); arm = k; let threw = false;
					try { await MIG.runMigrations(c.store, v, SV); } catch { threw = true; }
					const fired = arm === -2; arm = -1; chk.evaluations++; chk.nontrivial++;
					if (fired && !threw) { chk.violation(`migswallow:${v}`, `${label}: a failed write ${k} was swallowed`, { label, k }); break; }
					const d = dump(c);
					// stopped exactly at a version boundary: all steps before it are complete, nothing of the failing step remains
					const reached = versionOf(d);
					restore(c, old); if (reached > v) await MIG.runMigrations(c.store, v, reached); else if (canon(d) !== before) { chk.violation(`migpartial:${v}`, `${label}: failure at write ${k} of ${writes} left a half-migrated graph at version ${reached}`, { label, k }); break; }
					if (canon(dump(c)) !== canon(d)) { chk.violation(`migpartial:${v}`, `${label}: failure at write ${k} of ${writes} left a half-migrated graph at version ${reached}`, { label, k }); break; }
					restore(c, d); await MIG.runMigrations(c.store, reached, SV);
					if (!verify(`resumed after failing at write ${k}`)) break;
				}
				chk.sample(label);
			}
		}
		// stored version newer than the program: refused and untouched; no path: refused and untouched
		if (mine(0)) {
			restore(c, empty); const b4 = canon(dump(c));
			for (const [from, to, reg] of [[SV + 1, SV, undefined], [1, 3, [{ from: 2, to: 3, description: '', run() { /* */ } }]], [1, 2, []]] as [number, number, any][]) {
				let threw = false; try { await MIG.runMigrations(c.store, from, to, reg); } catch { threw = true; }
				chk.evaluations++;
				if (!threw || canon(dump(c)) !== b4) chk.violation(`migpath:${from}:${to}`, `migration ${from}->${to} without a path must be refused without touching the data`, { from, to });
			}
			// every subset of single steps over versions 1..4: reaches the target exactly when all steps are there, each run once, in order
			for (const steps of subsets([1, 2, 3, 4])) for (let from = 1; from <= 5; from++) for (let to = 1; to <= 5; to++) for (const failAt of [0, 1, 2, 3, 4]) {
				restore(c, empty); const ran: number[] = [];
				const reg = steps.map(s => ({ from: s, to: s + 1, description: '', run() { ran.push(s); if (s === failAt) throw new Error('step failed'); } })).reverse();
				let threw = false, res = -1; try { res = await MIG.runMigrations(c.store, from, to, reg); } catch { threw = true; }
				const want: number[] = []; let ok = from <= to; for (let s = from; s < to && ok; s++) { if (!steps.includes(s)) { ok = false; break; } want.push(s); if (s === failAt) ok = false; }
				chk.evaluations++;
				const reachedWant = from > to ? null : from + want.filter(s => s !== failAt).length;
				const stored = versionOf(dump(c));
				if (threw === ok || canon(ran) !== canon(want) || (ok && res !== to - from) || (want.some(s => s !== failAt) && stored !== reachedWant)) chk.violation(`steps:${steps}:${from}:${to}:${failAt}`, `steps [${steps}] from ${from} to ${to} (step ${failAt} fails): ran [${ran}] ${threw ? 'and failed' : 'ok'} leaving version ${stored}; expected [${want}] ${ok ? 'ok' : 'and failed'}`, {});
			}
		}
	});
	chk.finish();
});
const versionOf = (d: Dump): number => val(d.db['meta']!.find(([k]) => k.includes('schema_version'))![1]);
// graph content with repo ids replaced by their path/namespace and entity ids by string ids; counters and dropped phantoms' allocations ignored
function norm(d: Dump, v: number): string {
	const rp = new Map(d.db['repo']!.map(([k, w]) => { const r = val(w); return [u32(k), r.path || `shared:${k.charCodeAt(3)}`]; }));
	const id = new Map(d.db['entity_string_by_u64']!); const n = (k: string): string => id.get(k) ?? `?${u64(k)}`;
	const ents = d.db['entity']!.map(([k, w]) => { const r = val(w); return [n(k), { ...r, repoId: rp.get(r.repoId) ?? `?${r.repoId}` }]; }).sort((a, b) => (String(a[0]) < String(b[0]) ? -1 : 1));
	return canon({ v: [versionOf(d), v], rp: [...rp.values()].sort(), repos: d.db['repo']!.map(([, w]) => { const { id: _i, kind, addedAt, ...r } = val(w); return canon({ ...r, kind: kind ?? 'workspace' }); }).sort(), ents,
		ids: d.db['entity_id_by_string']!.map(x => x[0]).sort(), names: d.db['name_index']!.map(([k, w]) => [rp.get(u32(k)), k.slice(4), n(w)].join('|')).sort(),
		out: d.db['out_edge']!.map(([k]) => [n(k.slice(0, 8)), k.charCodeAt(8), n(k.slice(9))].join('|')).sort(), inn: d.db['in_edge']!.map(([k]) => [n(k.slice(0, 8)), k.charCodeAt(8), n(k.slice(9))].join('|')).sort(),
		u: d.db['unresolved'], uf: d.db['unresolved_by_file'], xc: d.db['exploration_cache'] });
}
function firstDiff(a: string, b: string): string { const x = JSON.parse(a), y = JSON.parse(b); for (const k of Object.keys(y)) if (canon(x[k]) !== canon(y[k])) return `${k}: ${canon(x[k]).slice(0, 400)} vs ${canon(y[k]).slice(0, 400)}`; return ''; }
void s2b;
