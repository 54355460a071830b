// C04: a storage operation that fails at any internal write leaves nothing behind; concurrent operations keep their own effects.
import { Check, main, THOROUGH, canon } from '../lib/mc.mts';
import { explore, isWorker, serveWorker, type Domain, type Succ } from '../lib/explore.mts';
import { GraphDomain, OPS, observe, predict, canonRaw, emptySpec, type Node } from '../lib/graphdom.mts';
import { dump, restore, structural, DBS } from '../lib/store.mts';

// operations that consist of exactly one write transaction (all-or-nothing), and those made of several (must be completable by repeating)
const single = ['addA', 'addB', 'addA2', 'statA', 'a1r', 'a23', 'a2x', 'a3k', 'dup', 'd1', 'm1', 'rx1', 'rx2', 'rx0', 'ry', 'e12', 'emany', 'eb1', 'de12', 'u1', 'p1', 'pb', 'um', 'umb', 'duF', 'duR', 'dId2', 'ds', 'dds', 'ddsR', 'xc'];
const multi = ['umix', 'dF', 'dR', 'rmA', 'rmB', 'sessA', 'emb', 'a1e', 'rx1e', 'rye'];
const pairs = ['rmA', 'a1r', 'a1e', 'a23', 'rx2', 'rx0', 'b1', 'emany', 'u1', 'p1', 'dF', 'dR', 'ds', 'xc', 'addA2', 'umb', 'dId2', 'e12', 'duR'];
const full = ['addA', 'addB', 'a1', 'a23', 'b1', 'm1', 'd1', 'ep', 'e12', 'emany', 'eb1', 'u1', 'umix', 'ds', 'xc', 'xcB', 'emb'];

const diff = (a: string, b: string): string => { const x = JSON.parse(a), y = JSON.parse(b); return Object.keys(y).filter(k => canon(x[k]) !== canon(y[k])).map(k => ` ${k}: ${canon(x[k])} VS ${canon(y[k])}`).join(); };
class FaultDomain implements Domain<Node> {
	g = new GraphDomain([...single, ...multi], { repos: ['addA', 'addB'], full, linked: ['addA', 'addB', 'a1e', 'a23', 'b1e', 'e12', 'emany', 'sessA', 'u1'] });
	/** remaining writes before the injected failure; -1 = off */
	arm = -1; count = 0; txArm = -1; txCount = 0;
	names: string[] = [];
	async init(): Promise<void> {
		await this.g.init();
		const st = this.g.c.store;
		const dbs = Object.values(st).filter((v: any) => v && typeof v.put === 'function' && v !== st.root) as any[];
		if (dbs.length < 15) throw new Error(`only ${dbs.length} sub-databases found on the store`);
		for (const db of new Set(dbs)) for (const m of ['put', 'remove', 'putSync', 'removeSync']) {
			const o = db[m];
			db[m] = (...a: any[]) => { this.count++; if (this.arm >= 0 && this.arm-- === 0) { this.arm = -2; throw new Error('injected write failure'); } return o.apply(db, a); };
		}
		for (const m of ['childTransaction', 'transaction', 'transactionSync']) {
			const o = st.root[m];
			st.root[m] = (...a: any[]) => { this.txCount++; if (this.txArm >= 0 && this.txArm-- === 0) { this.txArm = -3; } if (this.txArm === -3) { return Promise.reject(new Error('injected crash between transactions')); } return o.apply(st.root, a); };
		}
	}
	opName(i: number): string { return String(this.labels[i] ?? i); }
	labels: string[] = [];
	async roots() { return this.g.roots(); }
	private off(): void { this.arm = -1; this.txArm = -1; this.g.c.lance.stats.failNext = null; }
	async expand(n: Node): Promise<Succ<Node>[]> {
		const out: Succ<Node>[] = []; const c = this.g.c;
		const base = canonRaw(n.d);
		const bad = (what: string, key: string): void => { out.push({ op: 0, state: null, key: '', viol: { key, what } }); };
		for (let i = 0; i < this.g.ops.length; i++) {
			const on = this.g.ops[i]!, op = OPS[on]!;
			// reference run, counting writes and transactions
			this.off(); this.count = 0; this.txCount = 0; c.lance.stats.ops = 0;
			restore(c, n.d); const s0 = this.g.c.lance.stats.ops;
			let refErr: unknown = null; this.count = 0; this.txCount = 0;
			try { await op.run(c); } catch (e) { refErr = e; }
			const writes = this.count, txs = this.txCount, lops = c.lance.stats.ops - s0;
			if (refErr !== null) { continue; }
			const ref = dump(c), refC = canonRaw(ref);
			const spec = structuredClone(n.s); op.spec(spec);
			out.push({ op: i, state: { d: ref, s: spec }, key: canon({ ...spec, edges: [...spec.edges].sort(), vecs: [...spec.vecs].sort() }) });
			for (let k = 0; k < writes; k++) {
				restore(c, n.d); this.arm = k; let err: any = null;
				try { await op.run(c); } catch (e) { err = e; }
				const fired = this.arm === -2; this.off();
				if (!fired) continue;
				out.push({ op: i, state: null, key: '' });
				const d = dump(c), got = canonRaw(d);
				if (err === null) { bad(`${op.name}: a failed write (number ${k}) was swallowed and the operation reported success`, `swallow:${on}:${k}`); continue; }
				if (single.includes(on) && got !== base) bad(`${op.name}: failing at write ${k} of ${writes} left a partial result behind`, `partial:${on}`);
				const sv = structural(d); if (sv) bad(`${op.name}: failing at write ${k} of ${writes} corrupted the graph: ${sv}`, `corrupt:${on}`);
				try { await op.run(c); } catch (e) { bad(`${op.name}: repeating after a failure at write ${k} failed: ${(e as Error).message}`, `retry:${on}`); continue; }
				const rc = canonRaw(dump(c)); if (rc !== refC) bad(`${op.name}: repeating after a failure at write ${k} does not give the result of an undisturbed run${process.env['DBG'] ? diff(rc, refC) : ''}`, `retrydiff:${on}`);
			}
			// the process dies before the k-th transaction: what was committed must be consistent and repeating completes the operation
			for (let k = 0; k < txs; k++) {
				restore(c, n.d); this.txArm = k; try { await op.run(c); } catch { /* dead */ } this.off();
				out.push({ op: i, state: null, key: '' });
				const sv = structural(dump(c)); if (sv && !sv.startsWith('vector of entity')) bad(`${op.name}: dying before transaction ${k} of ${txs} corrupts the graph: ${sv}`, `txcorrupt:${on}`);
				try { await op.run(c); } catch (e) { bad(`${op.name}: repeating after dying before transaction ${k} failed: ${(e as Error).message}`, `txretry:${on}`); continue; }
				const o = await observe(c), p = predict(spec); for (const q of Object.keys(p)) if (canon(o[q]) !== canon(p[q])) { bad(`${op.name}: repeating after dying before transaction ${k} of ${txs}: '${q}' is ${canon(o[q])}, undisturbed run gives ${canon(p[q])}`, `txdiff:${on}:${q}`); break; }
			}
			// the vector store fails once: the graph stays consistent, no deleted entity is ever returned by a search, repeating converges
			for (let k = 1; k <= lops; k++) {
				restore(c, n.d); c.lance.stats.ops = 0; c.lance.stats.failNext = (x: number) => x === k;
				try { await op.run(c); } catch { /* reported */ } this.off();
				out.push({ op: i, state: null, key: '' });
				const sv = structural(dump(c)); if (sv && !sv.startsWith('vector of entity')) bad(`${op.name}: a vector-store failure corrupts the graph: ${sv}`, `vec:${on}`);
				try { await observe(c); } catch (e) { bad(`${op.name}: reads fail after a vector-store failure: ${(e as Error).message}`, `vecread:${on}`); }
				try { await op.run(c); } catch (e) { bad(`${op.name}: repeating after a vector-store failure failed: ${(e as Error).message}`, `vecretry:${on}`); continue; }
				const o = await observe(c), p = predict(spec); for (const q of Object.keys(p)) if (q !== 'vec' && canon(o[q]) !== canon(p[q])) { bad(`${op.name}: repeating after a failure of vector-store call ${k}: '${q}' is ${canon(o[q])}, undisturbed run gives ${canon(p[q])}`, `vecdiff:${on}:${q}`); break; }
			}
		}
		// two operations submitted together, the first failing at each of its writes: the second must be unaffected
		for (const x of pairs) for (const y of pairs) {
			if (multi.includes(x)) continue;
			const px = OPS[x]!, py = OPS[y]!;
			restore(c, n.d); this.off(); this.count = 0; let xerr = null; try { await px.run(c); } catch (e) { xerr = e; }
			const wx = this.count; if (xerr || wx === 0) continue;
			const s = structuredClone(n.s); const thrown = py.spec(s) === 'throw';
			const want = thrown ? n.s : s;
			for (const k of THOROUGH ? Array.from({ length: wx }, (_, i) => i) : [...new Set([0, wx - 1])]) {
				restore(c, n.d); this.arm = k;
				const r = await Promise.allSettled([px.run(c), py.run(c)]); const fired = this.arm === -2; this.off();
				out.push({ op: 0, state: null, key: '' });
				if (!fired || r[0]!.status !== 'rejected') continue;
				if (thrown !== (r[1]!.status === 'rejected')) { bad(`${py.name} running together with a failing ${px.name} ${thrown ? 'succeeded' : `failed: ${(r[1] as any).reason?.message}`}`, `pair:${x}:${y}`); continue; }
				const d = dump(c); const sv = structural(d); if (sv) { bad(`${py.name} together with ${px.name} failing at write ${k}: ${sv}`, `pairbad:${x}:${y}`); continue; }
				const o = await observe(c), p = predict(want); for (const q of Object.keys(p)) if (canon(o[q]) !== canon(p[q])) { bad(`${py.name} together with ${px.name} failing at write ${k}: '${q}' is ${canon(o[q])}, expected ${canon(p[q])}`, `pairdiff:${x}:${y}`); break; }
			}
		}
		return out;
	}
}
const dom = new FaultDomain();
if (isWorker) await serveWorker(dom);
else main(async () => {
	const chk = new Check('C04', 'fault_enumeration');
	chk.assumptions.push('an LMDB transaction is atomic on disk (process death is modelled between transactions and by a throw inside one)', 'vector store replaced by an in-memory table with the same contract');
	await explore(chk, dom, { depth: THOROUGH ? 4 : 2, maxMs: THOROUGH ? 780_000 : 100_000 });
	chk.evaluations = chk.transitions; chk.nontrivial = chk.transitions - chk.states;
	chk.extra['operations'] = single.length + multi.length;
	chk.rule = 'for every explored state and operation: a failure injected at every write, every transaction boundary and every vector-store call, plus pairs of concurrent operations with one failing';
	chk.finish();
});
void emptySpec; void DBS;
