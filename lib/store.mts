// Open the real graph store in scratch; dump/restore its complete state so the real code can be used as a transition function.
import { repo, SCRATCH, REPO } from './mc.mts';
import { createRequire } from 'node:module';
import { join } from 'node:path';
import { mkdirSync } from 'node:fs';

const req = createRequire(join(REPO, 'package.json'));
export const { unpack } = req('msgpackr') as { unpack: (b: Uint8Array) => any };

/** sub-DB name -> dupSort. Names are the persisted on-disk names. */
export const DBS: Record<string, boolean> = {
	meta: false, repo: false, entity: false, entity_id_by_string: false, entity_string_by_u64: false, name_index: true,
	out_edge: false, in_edge: false, unresolved: false, unresolved_by_file: true, plan: false, plan_step: false,
	conversation_session: false, conversation_turn: false, conversation_turn_by_repo: true,
	todo_list: false, todo_list_by_session: true, todo_item: false, todo_comment: false,
	config_entry: false, config_by_scope: true, doc_summary: false, doc_summary_by_repo: true, exploration_cache: false,
};
export type Dump = { db: Record<string, [string, string][]>; lance: Record<string, any[]> };

export interface Ctx {
	store: any; raw: Record<string, any>; root: any;
	E: any; R: any; REL: any; S: any; DS: any; XC: any; CONV: any; TODO: any; ST: any;
	lance: { tables: Map<string, any[]>; stats: any }; lancePath: string;
}

export async function openCtx(dir = SCRATCH): Promise<Ctx> {
	mkdirSync(dir, { recursive: true });
	const ST = await repo('src/db/graph/store.ts');
	const LC = await repo('src/db/lance/conn.ts');
	ST.setGraphStorePath(join(dir, 'graph.lmdb'));
	LC.setLanceConnPath(join(dir, 'lance'));
	const store = await ST.getGraphStore();
	const raw: Record<string, any> = {};
	for (const [name, dupSort] of Object.entries(DBS)) raw[name] = store.root.openDB({ name, keyEncoding: 'binary', encoding: 'binary', dupSort, cache: false });
	const [E, R, REL, S, DS, XC, CONV, TODO] = await Promise.all(['entities', 'repos', 'relations', 'search', 'doc-summaries', 'exploration-cache', 'conversations', 'todos'].map(m => repo(`src/db/${m}.ts`)));
	const lance = (await import('./lance-stub.mjs')) as any;
	return { store, raw, root: store.root, E, R, REL, S, DS, XC, CONV, TODO, ST, lance, lancePath: join(dir, 'lance') };
}

const b2s = (b: Uint8Array): string => Buffer.from(b.buffer, b.byteOffset, b.byteLength).toString('latin1');
const s2b = (s: string): Buffer => Buffer.from(s, 'latin1');

export function dumpRange(db: any): [string, string][] {
	const out: [string, string][] = [];
	for (const { key, value } of db.getRange({})) out.push([b2s(key), value === undefined ? '' : b2s(value)]);
	return out;
}
export function dump(c: Ctx): Dump {
	const db: Dump['db'] = {};
	for (const n of Object.keys(DBS)) db[n] = dumpRange(c.raw[n]);
	const lance: Dump['lance'] = {};
	for (const [k, v] of c.lance.tables) lance[k.slice(k.lastIndexOf('|') + 1)] = v.map(r => ({ ...r, ...(r.embedding ? { embedding: Array.from(r.embedding).slice(0, 4) } : {}) }));
	return { db, lance };
}
const same = (a: [string, string][], b: [string, string][]): boolean => {
	if (a.length !== b.length) return false;
	for (let i = 0; i < a.length; i++) if (a[i]![0] !== b[i]![0] || a[i]![1] !== b[i]![1]) return false;
	return true;
};
export function restore(c: Ctx, d: Dump): void {
	c.root.transactionSync(() => {
		for (const n of Object.keys(DBS)) {
			const cur = dumpRange(c.raw[n]); const want = d.db[n] ?? [];
			if (same(cur, want)) continue;
			c.raw[n].clearSync();
			for (const [k, v] of want) c.raw[n].putSync(s2b(k), s2b(v));
		}
	});
	c.lance.tables.clear();
	for (const [k, v] of Object.entries(d.lance)) c.lance.tables.set(`${c.lancePath}|${k}`, v.map(r => ({ ...r })));
}
export const u64 = (s: string, off = 0): bigint => s2b(s).readBigUInt64BE(off);
export const u32 = (s: string, off = 0): number => s2b(s).readUInt32BE(off);
export const val = (s: string): any => { const v = unpack(s2b(s)); return v instanceof Uint8Array ? unpack(v) : v; };

/** Structural invariants of the persisted graph: returns a description of the first problem, or null. */
export function structural(d: Dump): string | null {
	const g = d.db;
	const repos = new Set(g['repo']!.map(([k]) => u32(k)));
	const paths = g['repo']!.map(([, v]) => val(v)).filter(r => (r.kind ?? 'workspace') === 'workspace').map(r => r.path);
	if (new Set(paths).size !== paths.length) return `two repo rows share a path: ${paths}`;
	const ents = new Map<bigint, any>(g['entity']!.map(([k, v]) => [u64(k), val(v)]));
	const rev = new Map<bigint, string>(g['entity_string_by_u64']!.map(([k, v]) => [u64(k), v]));
	if (rev.size !== ents.size) return `entity rows (${ents.size}) and id reverse map (${rev.size}) differ in size`;
	if (g['entity_id_by_string']!.length !== ents.size) return `entity rows (${ents.size}) and id forward map (${g['entity_id_by_string']!.length}) differ in size`;
	if (new Set(rev.values()).size !== rev.size) return 'two entities share one string id';
	for (const [u, r] of ents) {
		if (!rev.has(u)) return `entity ${u} has no string id`;
		if (!repos.has(r.repoId)) return `entity ${rev.get(u)} belongs to repo id ${r.repoId}, which is not registered`;
	}
	const kb = KIND;
	const want = new Set<string>();
	for (const [u, r] of ents) { const key = Buffer.concat([be4(r.repoId), Buffer.from([kb[r.kind] ?? 0]), Buffer.from(r.name, 'utf8')]).toString('latin1'); want.add(key + '|' + u); }
	const have = new Set(g['name_index']!.map(([k, v]) => k + '|' + u64(v)));
	for (const w of want) if (!have.has(w)) return `name index lacks an entry for entity ${w.split('|').pop()}`;
	for (const h of have) if (!want.has(h)) return `name index has a stale entry for entity ${h.split('|').pop()}`;
	const out = new Set(g['out_edge']!.map(([k]) => `${u64(k)}/${k.charCodeAt(8)}/${u64(k, 9)}`));
	const inn = new Set(g['in_edge']!.map(([k]) => `${u64(k, 9)}/${k.charCodeAt(8)}/${u64(k)}`));
	for (const e of out) { if (!inn.has(e)) return `edge ${e} has no reverse entry`; const [f, , t] = e.split('/'); if (!ents.has(BigInt(f!)) || !ents.has(BigInt(t!))) return `edge ${e} has an endpoint that is not an entity`; }
	for (const e of inn) if (!out.has(e)) return `reverse edge ${e} has no forward entry`;
	const unr = new Map<string, any>(g['unresolved']!.map(([, v]) => { const r = val(v); return [r.id, r]; }));
	const uw = new Set<string>();
	for (const r of unr.values()) { if (!repos.has(r.repoId)) return `unresolved ${r.id} belongs to an unregistered repo`; uw.add(Buffer.concat([be4(r.repoId), Buffer.from(r.fromFile, 'utf8')]).toString('latin1') + '|' + r.id); }
	const uh = new Set(g['unresolved_by_file']!.map(([k, v]) => k + '|' + v));
	for (const w of uw) if (!uh.has(w)) return `by-file index lacks unresolved ${w.split('|').pop()}`;
	for (const h of uh) if (!uw.has(h)) return `by-file index has a stale entry ${h.split('|').pop()}`;
	const ds = new Set(g['doc_summary']!.map(([k]) => u64(k)));
	for (const u of ds) if (!ents.has(u)) return `doc summary of entity ${u}, which does not exist`;
	for (const [k] of g['doc_summary_by_repo']!) { if (!ds.has(u64(k, 4))) return `doc-summary repo index names entity ${u64(k, 4)}, which has no summary`; if (!repos.has(u32(k))) return 'doc-summary repo index names an unregistered repo'; }
	for (const u of ds) if (!g['doc_summary_by_repo']!.some(([k]) => u64(k, 4) === u)) return `doc summary of ${u} is missing from the repo index`;
	for (const [k] of g['exploration_cache']!) if (!repos.has(u32(k))) return 'cached exploration of an unregistered repo';
	for (const [t, rows] of Object.entries(d.lance)) if (t === 'entity_vec') {
		const ids = new Set(rev.values()); const seen = new Set<string>();
		for (const r of rows) { if (String(r.id).startsWith('_seed')) continue; if (!hasId(ids, r.id)) return `vector of entity ${r.id}, which does not exist`; if (seen.has(r.id)) return `two vectors for entity ${r.id}`; seen.add(r.id); }
	}
	return null;
}
// entity_string_by_u64 values are ordered-binary strings; the plain text is a substring of the encoding
function hasId(ids: Set<string>, id: string): boolean { for (const s of ids) if (s === id || s.includes(id)) return true; return false; }
const be4 = (n: number): Buffer => { const b = Buffer.alloc(4); b.writeUInt32BE(n); return b; };
export const KIND: Record<string, number> = { repo: 1, file: 2, module: 3, function: 4, method: 5, class: 6, interface: 7, type: 8, variable: 9, document: 10, section: 11, config: 12, externalEndpoint: 13 };
