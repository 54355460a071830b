// C10: graph traversal answers on every small graph, against set-theoretic definitions.
import { Check, main, THOROUGH, canon, subsets } from '../lib/mc.mts';
import { openCtx, restore, dump, type Dump } from '../lib/store.mts';
import { repo } from '../lib/mc.mts';

const be = (n: number, w: number): string => { const b = Buffer.alloc(w); if (w === 8) b.writeBigUInt64BE(BigInt(n)); else b.writeUInt8(n); return b.toString('latin1'); };
main(async () => {
	const chk = new Check('C10', 'model_checking');
	chk.assumptions.push('graphs of up to 3 nodes with two relation kinds and up to 4 nodes with one (thorough: 4 nodes, two kinds on a reduced edge set)');
	await chk.sharded(async mine => {
		const c = await openCtx(); const T = await repo('src/db/graph/traversal.ts'); const K = await repo('src/db/graph/keys.ts');
		const KB: Record<string, number> = {};
		for (const k of ['CALLS', 'IMPORTS', 'DEPENDS_ON']) for (let b = 1; b < 40; b++) { try { if (K.kindByteToName(b) === k) KB[k] = b; } catch { /* unknown byte */ } }
		const ids = ['n1', 'n2', 'n3', 'n4'], kindsOf: any = { n1: 'function', n2: 'class', n3: 'function', n4: 'repo' };
		await c.R.addRepo(null, { kind: 'workspace', path: '/r/a', name: '', addedAt: '', status: 'ready' });
		const { ent } = await import('../lib/graphdom.mts');
		await c.E.upsertEntities(null, ids.map(i => ent(i, kindsOf[i], i, '/r/a', '/r/a/x.ts')));
		const u = await Promise.all(ids.map(i => c.E.entityU64ForId(i))) as bigint[];
		const base = dump(c);
		const collect = async (g: AsyncIterable<bigint>): Promise<number[]> => { const r: number[] = []; for await (const x of g) r.push(u.indexOf(x)); return r; };
		let item = 0;
		const tests: { n: number; kinds: string[]; arcs: [number, number, string][] }[] = [];
		const mk = (n: number, kinds: string[], self: boolean): void => {
			const all: [number, number, string][] = []; for (const k of kinds) for (let a = 0; a < n; a++) for (let b = 0; b < n; b++) if (self || a !== b) all.push([a, b, k]);
			tests.push({ n, kinds, arcs: all });
		};
		mk(3, ['CALLS'], true); mk(4, ['CALLS'], false); mk(3, ['CALLS', 'IMPORTS'], false);
		if (THOROUGH) { mk(4, ['CALLS'], true); mk(3, ['CALLS', 'IMPORTS'], true); }
		for (const t of tests) {
			const rootSets: number[][] = t.n === 4 ? [[0], [2, 0]] : [[0], [1, 0], [2, 2], []];
			for (const arcs of subsets(t.arcs)) {
				if (!mine(item++)) continue;
				const d: Dump = { ...base, db: { ...base.db, out_edge: [], in_edge: [] } };
				const val0 = '\x80';
				for (const [a, b, k] of arcs) { d.db['out_edge']!.push([be(Number(u[a]), 8) + be(KB[k]!, 1) + be(Number(u[b]), 8), val0]); d.db['in_edge']!.push([be(Number(u[b]), 8) + be(KB[k]!, 1) + be(Number(u[a]), 8), val0]); }
				for (const t2 of ['out_edge', 'in_edge']) d.db[t2]!.sort((x, y) => (x[0] < y[0] ? -1 : 1));
				restoreEdges(c, d); chk.states++;
				for (const filter of t.kinds.length > 1 ? [undefined, ['CALLS'], []] : [undefined, ['IMPORTS']]) for (const direction of ['out', 'in'] as const) {
					const adj: number[][] = Array.from({ length: 4 }, () => []);
					for (const [a, b, k] of arcs) if (filter === undefined || filter.includes(k)) (direction === 'out' ? adj[a]!.push(b) : adj[b]!.push(a));
					for (const roots of rootSets) for (const maxDepth of [undefined, 0, 1, 2]) for (const stop of [-1, 1]) {
						if (stop >= 0 && maxDepth !== undefined && maxDepth !== 2) continue;
						// distances from the roots, not descending below `stop`
						const dist = new Map<number, number>(); let fr = [...new Set(roots)]; fr.forEach(r => dist.set(r, 0));
						for (let dd = 0; fr.length && dd < (maxDepth ?? 99); dd++) { const nx: number[] = []; for (const x of fr) if (x !== stop) for (const y of adj[x]!) if (!dist.has(y)) { dist.set(y, dd + 1); nx.push(y); } fr = nx; }
						const opts: any = { direction, ...(filter ? { kindFilter: item % 2 ? filter : new Set(filter) } : {}), ...(maxDepth !== undefined ? { maxDepth } : {}), ...(stop >= 0 ? { visitor: (x: bigint) => x !== u[stop] } : {}) };
						const rs = roots.map(r => u[r]!); const what = (): string => `graph ${arcs.map(a => `${a[0]}-${a[2]}->${a[1]}`)} roots [${roots}] ${canon({ ...opts, visitor: stop })}`;
						const want = [...dist.keys()].sort().join();
						const b = await collect(T.bfs(rs, opts)); chk.transitions++;
						if ([...b].sort().join() !== want || b.some((x, i) => i > 0 && dist.get(b[i - 1]!)! > dist.get(x)!) || new Set(b).size !== b.length) chk.violation('bfs', `${what()}: bfs yields ${b}, reachable with depths ${canon([...dist])}`, { arcs });
						const f = await collect(T.dfs(rs, opts)); chk.transitions++;
						if ([...f].sort().join() !== want) chk.violation('dfs', `${what()}: dfs yields ${f}, reachable ${want}`, { arcs });
						if (maxDepth === undefined && stop < 0) {
							// depth-first order: every node after the first has its parent among the earlier ones, and unbounded order equals the recursive definition
							const rec: number[] = []; const go = (x: number): void => { if (rec.includes(x)) return; rec.push(x); [...new Set(adj[x]!)].forEach(y => go(y)); };
							const byKey = Array.from({ length: 4 }, (_, x) => adj[x]!); void byKey; roots.forEach(go);
							if (t.kinds.length === 1 && f.join() !== rec.join()) chk.violation('dfsorder', `${what()}: dfs order ${f}, recursive depth-first order ${rec}`, { arcs });
							const cl = await T.transitiveClosure(rs, opts); chk.transitions++;
							if ([...cl].map((x: any) => u.indexOf(x)).sort().join() !== want) chk.violation('closure', `${what()}: closure differs`, { arcs });
							const comps = (await T.scc(rs, opts)).map((x: bigint[]) => x.map(y => u.indexOf(y)).sort()); chk.transitions++;
							const reach = (a: number): Set<number> => { const s = new Set([a]); for (const x of s) adj[x]!.forEach(y => s.add(y)); return s; };
							const R = [0, 1, 2, 3].map(reach);
							const wantC = [...new Set([...dist.keys()].map(x => [...dist.keys()].filter(y => R[x]!.has(y) && R[y]!.has(x)).sort().join('+')))].sort().join(' ');
							if (comps.map((x: number[]) => x.join('+')).sort().join(' ') !== wantC) chk.violation('scc', `${what()}: components ${canon(comps)}, expected ${wantC}`, { arcs });
							for (const kinds of [['function'], ['class', 'repo'], []]) {
								const un = (await collect(T.unreachable(rs, kinds, opts))).sort().join(); chk.transitions++;
								const wu = [0, 1, 2, 3].filter(i => kinds.includes(kindsOf[ids[i]!]) && !dist.has(i)).join();
								if (un !== wu) chk.violation('unreachable', `${what()}: unreachable of kinds ${kinds}: ${un}, expected ${wu}`, { arcs });
							}
							const ce = (await c.S.closureEntities(null, roots.map(r => ids[r]!), opts)).map((e: any) => ids.indexOf(e.id)).sort().join();
							if (ce !== want) chk.violation('closureEntities', `${what()}: closureEntities ${ce}`, { arcs });
							const ue = (await c.S.unreachableEntities(null, roots.map(r => ids[r]!), ['function', 'class'], opts)).map((e: any) => ids.indexOf(e.id)).sort().join();
							const wu = [0, 1, 2].filter(i => !dist.has(i)).join();
							if (ue !== wu) chk.violation('unreachableEntities', `${what()}: unreachableEntities ${ue}, expected ${wu}`, { arcs });
							const se = (await c.S.sccEntities(null, roots.map(r => ids[r]!), opts)).map((x: any[]) => x.map(e => ids.indexOf(e.id)).sort().join('+')).sort().join(' ');
							if (se !== wantC) chk.violation('sccEntities', `${what()}: sccEntities ${se}`, { arcs });
						}
					}
				}
				if (t.kinds.includes('CALLS') && t.n === 3) for (let x = 0; x < 3; x++) {
					const g = async (f: string): Promise<string> => (await c.S[f](null, ids[x])).map((e: any) => ids.indexOf(e.id)).sort().join();
					const w = (k: string, out: boolean): string => [...new Set(arcs.filter(a => a[2] === k && (out ? a[0] : a[1]) === x).map(a => (out ? a[1] : a[0])))].sort().join();
					for (const [f, k, o] of [['findCallees', 'CALLS', true], ['findCallers', 'CALLS', false], ['findImports', 'IMPORTS', true]] as const) { const r = await g(f); chk.transitions++; if (r !== w(k, o)) chk.violation(f, `graph ${canon(arcs)}: ${f}(${x}) = ${r}, expected ${w(k, o)}`, { arcs }); }
				}
			}
		}
		// dependency closure of repos: every DEPENDS_ON graph over 4 repo entities, other kinds of edges never followed
		const { makeEntityId } = await repo('src/indexer/parser/base.ts');
		const rp = ['/w/a', '/w/ab', '/w/c', '/w/d'];
		restore(c, base);
		for (const r of rp) await c.R.addRepo(null, { kind: 'workspace', path: r, name: '', addedAt: '', status: 'ready' });
		await c.E.upsertEntities(null, [...rp.map(r => ent(makeEntityId(r, '', 'repo', r), 'repo', r, r, '')), ent('md', 'module', 'dep', '', ''), ent('fn', 'function', 'fn', '/w/c', '/w/c/x.ts')]);
		const ru = await Promise.all(rp.map(r => c.E.entityU64ForId(makeEntityId(r, '', 'repo', r)))) as bigint[]; const mu = await c.E.entityU64ForId('md') as bigint;
		const rbase = dump(c);
		const arcs4: [number, number][] = []; for (let a = 0; a < 4; a++) for (let b = 0; b < 4; b++) if (a !== b) arcs4.push([a, b]);
		for (const arcs of subsets(arcs4)) {
			if (!mine(item++)) continue;
			const d: Dump = { ...rbase, db: { ...rbase.db, out_edge: [], in_edge: [] } };
			const put = (f: bigint, k: string, t: bigint): void => { d.db['out_edge']!.push([be(Number(f), 8) + be(KB[k]!, 1) + be(Number(t), 8), '\x80']); d.db['in_edge']!.push([be(Number(t), 8) + be(KB[k]!, 1) + be(Number(f), 8), '\x80']); };
			for (const [a, b] of arcs) put(ru[a]!, 'DEPENDS_ON', ru[b]!);
			put(ru[0]!, 'DEPENDS_ON', mu); put(mu, 'CALLS', ru[3]!); put(ru[1]!, 'CALLS', ru[2]!);
			for (const t2 of ['out_edge', 'in_edge']) d.db[t2]!.sort((x, y) => (x[0] < y[0] ? -1 : 1));
			restore(c, d); chk.states++;
			for (let x = 0; x < 4; x++) {
				const s = new Set([x]); for (const y of s) arcs.filter(a => a[0] === y).forEach(a => s.add(a[1]));
				const got = await c.S.resolveClosure(null, rp[x]!); chk.transitions++;
				if ([...got].sort().join() !== [...s].map(i => rp[i]!).sort().join()) chk.violation('repoclosure', `repo dependencies ${canon(arcs)}: closure of ${rp[x]} is ${got}, expected ${[...s].map(i => rp[i])}`, { arcs });
			}
			const g = await c.S.resolveClosure(null, '/w/unknown'); if (g.join() !== '/w/unknown') chk.violation('repoclosure0', `closure of an unindexed repo is ${g}`, {});
		}
	});
	chk.traces = chk.transitions;
	chk.finish();
});
function restoreEdges(c: any, d: Dump): void { restore(c, d); }
