// The graph store as a labelled transition system: real operations, their specification on an abstract state,
// and the observation of the real store through its public read API.
import { canon } from './mc.mts';
import { openCtx, dump, restore, structural, u64, u32, type Ctx, type Dump } from './store.mts';
import type { Domain, Succ } from './explore.mts';

export const A = '/r/a', B = '/r/ab', ZZ = '/r/zz';
type Ent = Record<string, any>;
export interface Spec {
	repos: Record<string, any>; ents: Record<string, Ent>; edges: string[]; unres: Record<string, any>;
	docs: Record<string, any>; xc: Record<string, any>; vecs: string[]; sess: Record<string, string>;
}
export interface Op { name: string; run(c: Ctx): Promise<unknown>; spec(s: Spec): 'throw' | void }

const V = [1, 0, 0, 0];
export const ent = (id: string, kind: string, name: string, repo: string, file: string, x: Ent = {}): Ent => ({
	id, kind, name, language: 'typescript', repoId: 0, repo, file, startLine: 1, endLine: 2, body: `body-${id}`,
	embedding: [], indexedAt: '', hash: `h-${id}`, ...x,
});
const emb = { embedding: V, embeddingModel: 'mdl' };
export const EN = {
	a1: ent('a1', 'function', 'f', A, A + '/x.ts'),
	a1r: ent('a1', 'function', 'g', A, A + '/x.ts', { startLine: 5, endLine: 9, isExported: true, signature: 'sig' }),
	a1e: ent('a1', 'function', 'f', A, A + '/x.ts', emb),
	a2: ent('a2', 'function', 'f', A, A + '/y.ts'),
	a2x: ent('a2', 'function', 'f', A, A + '/y.ts', { isExported: true, isAsync: true }),
	a2e: ent('a2', 'function', 'f', A, A + '/y.ts', { ...emb, body: 'other', hash: 'h2' }),
	a3: ent('a3', 'class', 'C', A, A + '/x.ts', { isAbstract: true }),
	a3k: ent('a3', 'interface', 'C', A, A + '/x.ts'),
	b1: ent('b1', 'function', 'f', B, B + '/x.ts'),
	b1e: ent('b1', 'function', 'f', B, B + '/x.ts', emb),
	m1: ent('m1', 'module', 'lodash', '', ''),
	m1x: ent('m1', 'module', 'lodash', '', '', { body: 'changed', startLine: 7 }),
	d1: ent('d1', 'document', 'Doc', A, A + '/doc.md', { artifact: true }),
	ep: ent('ep', 'externalEndpoint', 'E', A, '', { protocol: 'http', resolved: false, rawExpression: 'u' }),
	epr: ent('ep', 'externalEndpoint', 'E', A, '', { protocol: 'http', resolved: true, target: 'svc', rawExpression: 'u' }),
	zz: ent('zz', 'function', 'f', ZZ, ZZ + '/x.ts'),
	empty: ent('em', 'function', 'f', '', 'q.ts'),
};
export const IDS = ['a1', 'a2', 'a3', 'b1', 'm1', 'd1', 'ep', 'zz', 'em'];
const NAMES = ['f', 'g', 'C', 'lodash', 'Doc', 'E'];
const FILES = [A + '/x.ts', A + '/y.ts', B + '/x.ts', A + '/doc.md', ''];

const has = (o: object, k: string): boolean => Object.hasOwn(o, k);
const clean = (e: Ent): Ent => {
	// the domain form of an entity as the API promises to return it
	const r: Ent = { id: e.id, kind: e.kind, name: e.name, language: e.language, repo: e.repo, file: e.file, startLine: e.startLine, endLine: e.endLine, body: e.body };
	for (const k of ['isExported', 'isAsync', 'isAbstract', 'artifact']) if (e[k]) r[k] = true;
	for (const k of ['signature', 'hash', 'embeddingModel', 'protocol', 'target', 'rawExpression']) if (e[k]) r[k] = e[k];
	if (e.kind === 'externalEndpoint') { delete r['file']; if (e.resolved !== undefined) r['resolved'] = e.resolved; } // endpoints belong to no file
	return r;
};
const view = (e: any): Ent | null => { if (e === null || e === undefined) return null; const { repoId, embedding, indexedAt, rootPath, ...r } = e; return clean(r); };

const delEnt = (s: Spec, id: string): void => {
	delete s.ents[id]; delete s.docs[id]; s.vecs = s.vecs.filter(v => v !== id);
	s.edges = s.edges.filter(e => { const [f, , t] = e.split('|'); return f !== id && t !== id; });
};
const putEnt = (s: Spec, e: Ent): void => {
	const old = s.ents[e.id];
	if (old !== undefined && e.kind === 'module') return;
	s.ents[e.id] = clean(e);
	if (e.embedding.length > 0) { if (!s.vecs.includes(e.id)) s.vecs.push(e.id); }
	else if (!e.embeddingModel) s.vecs = s.vecs.filter(v => v !== e.id);
};
const upsert = (name: string, ...es: Ent[]): Op => ({
	name: `upsertEntities([${name}])`, run: c => c.E.upsertEntities(null, structuredClone(es)),
	spec: s => { for (const e of es) if (!(e.kind === 'module' && e.repo === '') && !has(s.repos, e.repo)) return 'throw'; const last = new Map(es.map(e => [e.id, e])); for (const e of last.values()) putEnt(s, e); },
});
const reindex = (name: string, repo: string, file: string, ...es: Ent[]): Op => ({
	name: `reindexFile(${file || "''"}, [${name}])`, run: c => c.E.reindexFile(null, repo, file, structuredClone(es)),
	spec: s => {
		if (repo === '') return;
		if (!has(s.repos, repo)) return 'throw';
		const keep = new Set(es.map(e => e.id));
		for (const [id, e] of Object.entries(s.ents)) if (e.repo === repo && e.file === file && !keep.has(id)) delEnt(s, id);
		for (const e of new Map(es.map(e => [e.id, e])).values()) {
			// a row that does not change keeps its vector as it is
			putEnt(s, e);
		}
	},
});
const edge = (f: string, k: string, t: string): any => ({ from: f, to: t, kind: k, resolved: true });
const rels = (name: string, ...rs: any[]): Op => ({
	name: `upsertRelations([${name}])`, run: c => rs.length === 1 ? c.REL.upsertRelation(null, rs[0]) : c.REL.upsertRelations(null, structuredClone(rs)),
	spec: s => {
		for (const r of rs) {
			if (r.resolved) { const e = `${r.from}|${r.kind}|${r.to}`; if (has(s.ents, r.from) && has(s.ents, r.to) && r.kind !== 'NOPE' && !s.edges.includes(e)) s.edges.push(e); }
			else if (r.meta?.file && r.meta?.repo && has(s.repos, r.meta.repo)) {
				const k = `${r.meta.repo}|${r.from}|${r.kind}|${r.to}`;
				s.unres[k] = { repo: r.meta.repo, fromEntity: r.from, fromFile: r.meta.file, kind: r.kind, rawTo: r.to, meta: r.meta };
			}
		}
	},
});
const delRels = (name: string, ...rs: [string, string, string][]): Op => ({
	name: `deleteResolvedRelations([${name}])`, run: c => c.REL.deleteResolvedRelations(null, rs.map(([from, kind, to]) => ({ from, kind, to }))),
	spec: s => { const d = new Set(rs.map(r => r.join('|'))); s.edges = s.edges.filter(e => !d.has(e)); },
});
const unr = (from: string, to: string, repo: string, file: string, x: Ent = {}): any => ({ from, to, kind: 'CALLS', resolved: false, meta: { repo, file, ...x } });
const uOf = (c: Ctx, k: string): any => { const [repo, f, kind, to] = k.split('|'); return { id: c.REL.makeUnresolvedRelationId(repo, f, kind, to), repo, fromEntity: f, fromFile: '', kind, rawTo: to, meta: {}, attemptedAt: '' }; };
const U1 = `${A}|a1|CALLS|foo`, U2 = `${B}|b1|CALLS|foo`, U3 = `${A}|a2|CALLS|bar`;
const promoteSpec = (s: Spec, k: string, target: string): void => {
	const [, f, kind] = k.split('|'); const e = `${f}|${kind}|${target}`;
	if (has(s.ents, f!) && has(s.ents, target) && !s.edges.includes(e)) s.edges.push(e);
	delete s.unres[k];
};
const delWhere = (s: Spec, p: (e: Ent) => boolean): void => { for (const [id, e] of Object.entries(s.ents)) if (p(e)) delEnt(s, id); };
const addRepo = (path: string, x: Ent = {}): Op => ({
	name: `addRepo(${path}${Object.keys(x).length ? ',' + JSON.stringify(x) : ''})`,
	run: c => c.R.addRepo(null, { kind: 'workspace', path, name: '', addedAt: '2024-01-01T00:00:00.000Z', status: 'pending', ...x }),
	spec: s => { const p = path.replace(/\/+$/, ''); s.repos[p] = { name: x['name'] || p.split('/').pop(), status: x['status'] ?? 'pending', ...(x['lastIndexed'] ? { lastIndexed: x['lastIndexed'] } : {}), ...(x['errorMsg'] ? { errorMsg: x['errorMsg'] } : {}) }; },
});
const removeRepo = (path: string): Op => ({
	name: `removeRepo(${path || "''"})`, run: c => c.R.removeRepo(null, path),
	spec: s => {
		if (!has(s.repos, path)) { for (const [k, r] of Object.entries(s.sess)) if (path !== '' && r === path) delete s.sess[k]; return; }
		delWhere(s, e => e.repo === path);
		for (const [k, u] of Object.entries(s.unres)) if (u.repo === path) delete s.unres[k];
		for (const k of Object.keys(s.xc)) if (k.startsWith(path + '|')) delete s.xc[k];
		for (const [k, r] of Object.entries(s.sess)) if (r === path) delete s.sess[k];
		delete s.repos[path];
	},
});
const exp = { type: 'concept.resolve', params: { query: 'q', z: 1 } };
const expPerm = { type: 'concept.resolve', params: { z: 1, query: 'q' } };
const bad = (path: any): Op => ({ name: `addRepo(${JSON.stringify(path)}) [banned]`, run: c => c.R.addRepo(null, { kind: 'workspace', path, name: '', addedAt: '', status: 'pending' }), spec: () => 'throw' });
const sumOf = (t: string): any => ({ role: 'r', summary: t, keyTopics: [], referencedSymbols: [], generatedAt: 1, model: 'm', sourceHash: 'h' });

export const OPS: Record<string, Op> = {
	addA: addRepo(A), addB: addRepo(B), addA2: addRepo(A + '/', { name: 'nm', status: 'ready', lastIndexed: '2024-02-02T00:00:00.000Z' }),
	rmA: removeRepo(A), rmB: removeRepo(B), rmEmpty: removeRepo(''), rmZ: removeRepo(ZZ),
	badRoot: bad('/'), badTmp: bad('/tmp/../tmp/'), badRel: bad('rel/x'), badEmpty: bad(''), badHome: bad('/home'), badNum: bad(7),
	statA: { name: 'updateRepoStatus(A,error)', run: c => c.R.updateRepoStatus(null, A, 'error', '2024-03-03T00:00:00.000Z', 'boom'), spec: s => { if (has(s.repos, A)) s.repos[A] = { name: s.repos[A].name, status: 'error', lastIndexed: '2024-03-03T00:00:00.000Z', errorMsg: 'boom' }; } },
	statEmpty: { name: "updateRepoStatus('')", run: c => c.R.updateRepoStatus(null, '', 'error', undefined, 'boom'), spec: () => {} },
	a1: upsert('a1', EN.a1), a1r: upsert('a1 renamed', EN.a1r), a1e: upsert('a1 embedded', EN.a1e), a23: upsert('a2,a3', EN.a2, EN.a3), a2x: upsert('a2 exported', EN.a2x), a2e: upsert('a2 embedded', EN.a2e),
	a3k: upsert('a3 as interface', EN.a3k), b1: upsert('b1', EN.b1), b1e: upsert('b1 embedded', EN.b1e), m1: upsert('m1', EN.m1), m1x: upsert('m1 changed', EN.m1x), dup: upsert('a1 renamed,a1', EN.a1r, EN.a1),
	badUp: upsert('a1r,zz(unregistered)', EN.a1r, EN.zz), emptyUp: upsert("a3k,function with repo ''", EN.a3k, EN.empty), d1: upsert('d1', EN.d1), ep: upsert('ep', EN.ep), epr: upsert('ep resolved', EN.epr),
	rx1: reindex('a1', A, A + '/x.ts', EN.a1), rx2: reindex('a1 renamed,a3', A, A + '/x.ts', EN.a1r, EN.a3), rx0: reindex('', A, A + '/x.ts'), rx1e: reindex('a1 embedded', A, A + '/x.ts', EN.a1e), rx3: reindex('a3 as interface', A, A + '/x.ts', EN.a3k),
	ry: reindex('a2 exported', A, A + '/y.ts', EN.a2x), rye: reindex('a2 embedded', A, A + '/y.ts', EN.a2e), ry0: reindex('', A, A + '/y.ts'), rbx: reindex('b1', B, B + '/x.ts', EN.b1), rbx0: reindex('', B, B + '/x.ts'),
	rbad: reindex('a1', '', A + '/x.ts', EN.a1), rdup: reindex('a1,a1 renamed', A, A + '/x.ts', EN.a1, EN.a1r),
	e12: rels('a1 CALLS a2', edge('a1', 'CALLS', 'a2')),
	emany: rels('a1 CALLS a1, a2 CALLS b1, a1 IMPORTS m1, a3 DEFINES a1, a1 CALLS missing, a2 NOPE a1', edge('a1', 'CALLS', 'a1'), edge('a2', 'CALLS', 'b1'), edge('a1', 'IMPORTS', 'm1'), edge('a3', 'DEFINES', 'a1'), edge('a1', 'CALLS', 'missing'), edge('a2', 'NOPE', 'a1')),
	eb1: rels('b1 CALLS a1, b1 CALLS a1', edge('b1', 'CALLS', 'a1'), edge('b1', 'CALLS', 'a1')),
	de12: delRels('a1 CALLS a2, a1 CALLS missing', ['a1', 'CALLS', 'a2'], ['a1', 'CALLS', 'missing']), de2: delRels('a2 CALLS b1, a1 CALLS a1', ['a2', 'CALLS', 'b1'], ['a1', 'CALLS', 'a1']),
	u1: rels('unresolved a1->foo', unr('a1', 'foo', A, A + '/x.ts')), u1m: rels('unresolved a1->foo with meta', unr('a1', 'foo', A, A + '/x.ts', { hint: 1 })),
	umix: rels('unresolved b1->foo, a2->bar; a1 CALLS a2; one without file', unr('b1', 'foo', B, B + '/x.ts'), unr('a2', 'bar', A, A + '/y.ts'), edge('a1', 'CALLS', 'a2'), unr('a1', 'qux', A, '')),
	ubad: rels('unresolved in unregistered repo', unr('zz', 'foo', ZZ, ZZ + '/x.ts')),
	p1: { name: 'promoteToResolved(a1->foo, a2)', run: c => c.REL.promoteToResolved(null, uOf(c, U1), 'a2'), spec: s => promoteSpec(s, U1, 'a2') },
	pb: { name: 'promoteResolvedBatch(a1->foo=>missing, b1->foo=>a1)', run: c => c.REL.promoteResolvedBatch(null, [{ unresolved: uOf(c, U1), targetEntityId: 'missing' }, { unresolved: uOf(c, U2), targetEntityId: 'a1' }]), spec: s => { promoteSpec(s, U1, 'missing'); promoteSpec(s, U2, 'a1'); } },
	um: { name: 'updateUnresolvedMeta(a1->foo)', run: c => c.REL.updateUnresolvedMeta(null, uOf(c, U1).id, { n: 1 }), spec: s => { if (has(s.unres, U1)) s.unres[U1].meta = { n: 1 }; } },
	umb: { name: 'updateUnresolvedMetaBatch(a2->bar, missing)', run: c => c.REL.updateUnresolvedMetaBatch(null, [{ id: uOf(c, U3).id, meta: { n: 2 } }, { id: 'nope', meta: {} }]), spec: s => { if (has(s.unres, U3)) s.unres[U3].meta = { n: 2 }; } },
	duF: { name: 'deleteUnresolvedForFile(A/x.ts)', run: c => c.REL.deleteUnresolvedForFile(null, A + '/x.ts'), spec: s => { for (const [k, u] of Object.entries(s.unres)) if (u.fromFile === A + '/x.ts') delete s.unres[k]; } },
	duR: { name: 'deleteUnresolvedForRepo(A)', run: c => c.REL.deleteUnresolvedForRepo(null, A), spec: s => { for (const [k, u] of Object.entries(s.unres)) if (u.repo === A) delete s.unres[k]; } },
	dF: { name: 'deleteEntitiesForFile(A/x.ts)', run: c => c.E.deleteEntitiesForFile(null, A + '/x.ts'), spec: s => { delWhere(s, e => e.file === A + '/x.ts'); for (const [k, u] of Object.entries(s.unres)) if (u.fromFile === A + '/x.ts') delete s.unres[k]; } },
	dId: { name: 'deleteEntitiesById([a1,missing])', run: c => c.E.deleteEntitiesById(null, ['a1', 'missing']), spec: s => delEnt(s, 'a1') },
	dId2: { name: 'deleteEntitiesById([m1,a2])', run: c => c.E.deleteEntitiesById(null, ['m1', 'a2']), spec: s => { delEnt(s, 'm1'); delEnt(s, 'a2'); } },
	dR: { name: 'deleteEntitiesForRepo(A)', run: c => c.E.deleteEntitiesForRepo(null, A), spec: s => { if (!has(s.repos, A)) return; delWhere(s, e => e.repo === A); for (const k of Object.keys(s.xc)) if (k.startsWith(A + '|')) delete s.xc[k]; } },
	dREmpty: { name: "deleteEntitiesForRepo('')", run: c => c.E.deleteEntitiesForRepo(null, ''), spec: () => {} },
	ds: { name: 'writeDocSummary(d1)', run: c => c.DS.writeDocSummary(null, 'd1', A, sumOf('one')), spec: s => { if (!has(s.ents, 'd1') || !has(s.repos, A)) return 'throw'; s.docs['d1'] = 'one'; } },
	ds2: { name: 'writeDocSummary(d1 again)', run: c => c.DS.writeDocSummary(null, 'd1', A, sumOf('two')), spec: s => { if (!has(s.ents, 'd1') || !has(s.repos, A)) return 'throw'; s.docs['d1'] = 'two'; } },
	dds: { name: 'deleteDocSummary(d1)', run: c => c.DS.deleteDocSummary(null, 'd1'), spec: s => { delete s.docs['d1']; } },
	ddsR: { name: 'deleteDocSummariesForRepo(A)', run: c => c.DS.deleteDocSummariesForRepo(null, A), spec: s => { for (const id of Object.keys(s.docs)) if (s.ents[id]!['repo'] === A) delete s.docs[id]; } },
	xc: { name: 'putCachedExploration(A)', run: c => c.XC.putCachedExploration(A, 5n, exp, { type: 'concept.resolve', n: 1 }), spec: s => { if (has(s.repos, A)) s.xc[A + '|5'] = { type: 'concept.resolve', n: 1 }; } },
	xcB: { name: 'putCachedExploration(B)', run: c => c.XC.putCachedExploration(B, 5n, expPerm, { type: 'concept.resolve', n: 2 }), spec: s => { if (has(s.repos, B)) s.xc[B + '|5'] = { type: 'concept.resolve', n: 2 }; } },
	emb: { name: 'updateEmbedding(a1)', run: c => c.E.updateEmbedding(null, 'a1', V, 'mdl2'), spec: s => { if (has(s.ents, 'a1')) { s.ents['a1']!['embeddingModel'] = 'mdl2'; if (!s.vecs.includes('a1')) s.vecs.push('a1'); } } },
	sessA: { name: 'saveSession(sA in A)', run: c => c.CONV.saveSession(null, { id: 'sA', repo: A, summary: 's', summaryVec: [], seenEntities: [], createdAt: '2024-01-01T00:00:00.000Z', status: 'closed', turns: [{ idx: 0, user: 'u', assistant: 'a', entities: [], type: 'message', category: 'code-context', vector: [], createdAt: '2024-01-01T00:00:00.000Z' }] }), spec: s => { s.sess['sA'] = A; } },
};

export async function observe(c: Ctx): Promise<any> {
	const o: any = {};
	o.repos = Object.fromEntries((await c.R.listRepos(null)).map((r: any) => { const { path, addedAt, kind, ...x } = r; return [path, x]; }));
	const ents: Record<string, Ent> = {};
	for (const e of await c.E.getEntitiesByIds(null, IDS)) ents[e.id] = view(e)!;
	o.ents = ents;
	o.single = []; for (const id of IDS) { const e = await c.E.getEntity(null, id); if (e) { o.single.push(e.id); const u = await c.E.entityU64ForId(id); if (u === undefined || (await c.E.entityIdByU64(u)) !== id) o.single.push(`idmap(${id})`); } }
	const idsOf = (l: any[]): string => l.map(e => e.id).sort().join();
	o.byName = {}; for (const n of NAMES) { o.byName[n] = idsOf(await c.E.findEntitiesByName(null, [n])); o.byName[n + '@A'] = idsOf(await c.E.findEntitiesByName(null, [n], { repo: A })); }
	o.byName['f,g@A+B fn'] = idsOf(await c.E.findEntitiesByName(null, ['f', 'g'], { repos: [A, B], kinds: ['function'] }));
	o.byFile = {}; for (const f of FILES.slice(0, 4)) o.byFile[f] = idsOf(await c.E.findEntitiesByFile(null, f));
	o.byRepo = {}; for (const r of [A, B, ZZ, '']) o.byRepo[r] = idsOf(await c.E.listEntitiesForRepo(null, r));
	o.byKind = {}; for (const k of ['function', 'class', 'interface', 'module', 'document', 'externalEndpoint']) o.byKind[k] = idsOf(await c.E.listEntitiesByKind(null, k));
	o.byKinds = idsOf(await c.E.listEntitiesByKinds(null, ['function', 'class'], { repo: A }));
	o.unembedded = idsOf(await c.E.listUnembeddedEntities(null, A));
	o.out = {}; for (const id of Object.keys(ents)) { o.out[id] = [idsOf(await c.S.findCallees(null, id)), idsOf(await c.S.findCallers(null, id)), idsOf(await c.S.findImports(null, id)), idsOf(await c.S.findDefinedIn(null, id))].join(';'); }
	o.unres = {}; for (const r of [A, B]) for (const f of [undefined, A + '/x.ts', A + '/y.ts', B + '/x.ts']) {
		const l = (await c.REL.listUnresolvedRelations(null, r, f)).map((u: any) => canon({ repo: u.repo, fromEntity: u.fromEntity, fromFile: u.fromFile, kind: u.kind, rawTo: u.rawTo, meta: u.meta })).sort();
		o.unres[`${r}@${f ?? '*'}`] = l;
	}
	o.docs = {}; for (const id of Object.keys(ents)) { const d = await c.DS.getDocSummary(null, id); if (d) o.docs[id] = d.summary; }
	o.docN = [await c.DS.countDocSummariesForRepo(null, A), (await c.DS.listDocSummariesForRepo(null, A)).length, (await c.DS.listDocSummaryEntityIdsForRepo(null, A)).join(), await c.DS.countDocSummariesForRepo(null, B)];
	o.xc = {}; for (const r of [A, B]) for (const t of [5n, 6n]) { const x = await c.XC.getCachedExploration(r, t, expPerm); if (x) o.xc[`${r}|${t}`] = x; }
	o.vec = (await c.S.searchEntities(null, V, [A, B], 100)).map((e: any) => e.id).sort().join();
	o.sess = {}; for (const r of [A, B]) for (const x of await c.CONV.listSessions(null, r)) o.sess[x.id] = r;
	return o;
}
/** the same observation computed from the abstract state */
export function predict(s: Spec): any {
	const E = s.ents; const ids = Object.keys(E);
	const sel = (p: (e: Ent) => boolean): string => ids.filter(i => p(E[i]!)).sort().join();
	const nb = (id: string, k: string, out: boolean): string => [...new Set(s.edges.map(e => e.split('|')).filter(([f, kk, t]) => kk === k && (out ? f : t) === id).map(([f, , t]) => (out ? t : f)!))].sort().join();
	const o: any = { repos: s.repos, ents: E, single: IDS.filter(i => has(E, i)), byName: {}, byFile: {}, byRepo: {}, byKind: {}, out: {}, unres: {}, docs: s.docs, xc: s.xc, sess: s.sess };
	for (const n of NAMES) { o.byName[n] = sel(e => e.name === n); o.byName[n + '@A'] = sel(e => e.name === n && e.repo === A); }
	o.byName['f,g@A+B fn'] = sel(e => ['f', 'g'].includes(e.name) && e.kind === 'function');
	for (const f of FILES.slice(0, 4)) o.byFile[f] = sel(e => e.file === f);
	for (const r of [A, B, ZZ]) o.byRepo[r] = sel(e => e.repo === r); o.byRepo[''] = '';
	for (const k of ['function', 'class', 'interface', 'module', 'document', 'externalEndpoint']) o.byKind[k] = sel(e => e.kind === k);
	o.byKinds = sel(e => ['function', 'class'].includes(e.kind) && e.repo === A);
	o.unembedded = sel(e => e.repo === A && !e.embeddingModel);
	for (const id of ids) o.out[id] = [nb(id, 'CALLS', true), nb(id, 'CALLS', false), nb(id, 'IMPORTS', true), nb(id, 'DEFINES', true)].join(';');
	for (const r of [A, B]) for (const f of [undefined, A + '/x.ts', A + '/y.ts', B + '/x.ts']) o.unres[`${r}@${f ?? '*'}`] = Object.values(s.unres).filter(u => u.repo === r && (f === undefined || u.fromFile === f)).map(u => canon(u)).sort();
	const dA = Object.keys(s.docs).filter(i => E[i]!['repo'] === A);
	o.docN = [dA.length, dA.length, dA.join(), Object.keys(s.docs).length - dA.length];
	o.vec = s.vecs.filter(i => E[i]!['repo'] !== '').slice().sort().join();
	return o;
}

/** raw dump with internal numeric ids replaced by string ids, counters dropped */
export function canonRaw(d: Dump): string {
	const rev = new Map(d.db['entity_string_by_u64']!.map(([k, v]) => [k, v]));
	const n = (k: string): string => rev.get(k) ?? `?${u64(k)}`;
	const rr = new Map(d.db['repo']!.map(([k, v]) => [k, v]));
	const rp = (k: string): string => { const v = rr.get(k); return v === undefined ? `?${u32(k)}` : 'R'; };
	void rp;
	return canon({
		e: d.db['entity']!.map(([k, v]) => [n(k), v]).sort(), i: d.db['entity_id_by_string']!.map(x => x[0]), x: d.db['name_index']!.map(([k, v]) => [k, n(v)]).sort(),
		o: d.db['out_edge']!.map(([k, v]) => [n(k.slice(0, 8)), k[8], n(k.slice(9)), v]).sort(), n: d.db['in_edge']!.map(([k]) => [n(k.slice(0, 8)), k[8], n(k.slice(9))]).sort(),
		r: d.db['repo'], u: d.db['unresolved'], uf: d.db['unresolved_by_file'], d: d.db['doc_summary']!.map(([k, v]) => [n(k), v]), dr: d.db['doc_summary_by_repo']!.map(([k]) => [k.slice(0, 4), n(k.slice(4))]),
		xc: d.db['exploration_cache'], s: d.db['conversation_session'], t: d.db['conversation_turn'], tr: d.db['conversation_turn_by_repo'],
		l: Object.entries(d.lance).map(([t, rows]) => [t, rows.filter(r => !String(r.id).startsWith('_seed')).map(r => canon(r)).sort()]).filter(x => x[1]!.length).sort(),
	});
}

export interface Node { d: Dump; s: Spec }
export const emptySpec = (): Spec => ({ repos: {}, ents: {}, edges: [], unres: {}, docs: {}, xc: {}, vecs: [], sess: {} });
const specKey = (s: Spec): string => canon({ ...s, edges: [...s.edges].sort(), vecs: [...s.vecs].sort() });

export class GraphDomain implements Domain<Node> {
	c!: Ctx; base!: Dump; verified = new Map<string, Set<string>>(); obs = 0;
	constructor(readonly ops: string[], readonly rootSeqs: Record<string, string[]>) { for (const o of [...ops, ...Object.values(rootSeqs).flat()]) if (!OPS[o]) throw new Error(`no op ${o}`); }
	async init(): Promise<void> {
		let t = 1_700_000_000_000; Date.now = () => t; // one fixed instant: timestamps are not part of the explored state
		this.c = await openCtx();
		// create the vector table up front so its lazy creation is not a state difference
		await (await import(process.env['MC_REPO'] + '/src/db/lance/entity-vec.ts')).deleteEntityVecsByIds(['none']);
		this.base = dump(this.c);
	}
	opName(i: number): string { return OPS[this.ops[i]!]!.name; }
	async roots(): Promise<{ name: string; state: Node; key: string; viol?: any }[]> {
		const out: { name: string; state: Node; key: string; viol?: any }[] = [];
		for (const [name, seq] of Object.entries(this.rootSeqs)) {
			let st: Node = { d: this.base, s: emptySpec() };
			for (let i = 0; i < seq.length; i++) {
				const r = await this.apply(st, OPS[seq[i]!]!);
				if (r.viol) { out.push({ name: seq.slice(0, i + 1).map(o => OPS[o]!.name).join('; '), state: st, key: `viol${i}`, viol: r.viol }); break; }
				st = r.next!;
			}
			out.push({ name: `${name} [${seq.map(o => OPS[o]!.name).join('; ')}]`, state: st, key: specKey(st.s) });
		}
		return out;
	}
	async apply(n: Node, op: Op): Promise<{ next?: Node; viol?: { key: string; what: string; detail?: unknown } }> {
		restore(this.c, n.d);
		const s: Spec = structuredClone(n.s);
		const want = op.spec(s);
		const after = want === 'throw' ? structuredClone(n.s) : s;
		let err: unknown = null;
		try { await op.run(this.c); } catch (e) { err = e; }
		if (want === 'throw' && err === null) return { viol: { key: `nothrow:${op.name}`, what: `${op.name} must be rejected but succeeded` } };
		if (want !== 'throw' && err !== null) return { viol: { key: `threw:${op.name}`, what: `${op.name} failed: ${(err as Error).message}` } };
		const d = dump(this.c);
		const rm = /^removeRepo\((.+)\)$/.exec(op.name)?.[1];
		if (rm !== undefined && has(n.s.repos, rm)) for (const [t, rows] of Object.entries(d.lance)) for (const row of rows) if (row.repo === rm) return { viol: { key: `remains:${op.name}:${t}`, what: `after ${op.name}: a ${t} row of the removed repo remains (${row.id})` } };
		const sk = specKey(after), ck = canonRaw(d);
		let v = this.verified.get(sk); if (!v) this.verified.set(sk, v = new Set());
		if (!v.has(ck)) {
			const bad = structural(d);
			if (bad) return { viol: { key: `structural:${op.name}:${bad.replace(/\d+/g, '#')}`, what: `after ${op.name}: ${bad}` } };
			const got = await observe(this.c), exp = predict(after); this.obs++;
			for (const k of Object.keys(exp)) if (canon(got[k]) !== canon(exp[k])) return { viol: { key: `observe:${op.name}:${k}`, what: `after ${op.name}: '${k}' is ${canon(got[k])} but the specification says ${canon(exp[k])}`, detail: { got: got[k], expected: exp[k] } } };
			v.add(ck);
		}
		return { next: { d, s: after } };
	}
	async expand(n: Node): Promise<Succ<Node>[]> {
		const out: Succ<Node>[] = [];
		for (let i = 0; i < this.ops.length; i++) {
			const r = await this.apply(n, OPS[this.ops[i]!]!);
			if (r.viol) out.push({ op: i, state: null, key: '', viol: r.viol });
			else out.push({ op: i, state: r.next!, key: specKey(r.next!.s) });
		}
		return out;
	}
}
