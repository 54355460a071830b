// File-system fault injector: counts mutating fs calls made under a directory and stops the process model ("crash") before the
// k-th one, optionally tearing a write. After the crash every further mutation is dropped, as for a dead process.
import fs from 'node:fs';
import { createRequire, syncBuiltinESMExports } from 'node:module';
import { resolve } from 'node:path';
const fsp = (createRequire(import.meta.url)('node:fs/promises')) as any;
const F = fs as any;
export class Crash extends Error { constructor() { super('simulated crash'); this.name = 'SimulatedCrash'; } }
const MUT = ['writeFile', 'appendFile', 'rename', 'unlink', 'rm', 'rmdir', 'mkdir', 'copyFile', 'link', 'symlink', 'truncate', 'cp', 'mkdtemp', 'chmod', 'utimes'];
const orig: Record<string, any> = {};
for (const m of MUT) { orig[`${m}Sync`] = F[`${m}Sync`]; orig[`p.${m}`] = fsp[m]; orig[m] = F[m]; }
orig['openSync'] = F.openSync; orig['writeSync'] = F.writeSync; orig['p.open'] = fsp.open;
export const real = { ...orig } as Record<string, any>;

export interface FaultState { root: string; n: number; at: number; mode: 'before' | 'torn' | 'error'; dead: boolean; fired: boolean; log: string[]; errno: string }
let st: FaultState | null = null;
const inside = (p: unknown): boolean => st !== null && typeof p === 'string' && (resolve(p) + '/').startsWith(st.root + '/');
function hit(op: string, args: any[]): 'go' | 'drop' | 'torn' | 'error' {
	if (st === null) return 'go';
	const p = args[0], q = ['rename', 'copyFile', 'link', 'symlink', 'cp'].includes(op) ? args[1] : undefined;
	if (!inside(p) && !inside(q)) return 'go';
	if (op === 'mkdir' && F.existsSync(p)) return st.dead ? 'drop' : 'go'; // creating what exists changes nothing
	if (st.dead) return 'drop';
	const n = st.n++;
	st.log.push(`${op} ${String(p).slice(st.root.length)}${q ? ' -> ' + String(q).slice(st.root.length) : ''}`);
	if (n !== st.at) return 'go';
	st.fired = true;
	if (st.mode === 'error') return 'error';
	st.dead = true;
	return st.mode === 'torn' && ['writeFile', 'appendFile', 'cp'].includes(op) ? 'torn' : 'drop';
}
const errno = (): Error => Object.assign(new Error(`${st!.errno}: injected`), { code: st!.errno });
const half = (d: any): any => (typeof d === 'string' ? d.slice(0, Math.floor(d.length / 2)) : Buffer.from(d).subarray(0, Math.floor(d.length / 2)));
/** an interrupted recursive copy: every other file, the last of them cut short */
function halfTree(from: string, to: string): void {
	const files = (F.readdirSync(from, { recursive: true, withFileTypes: true }) as any[]).filter(d => d.isFile()).map(d => resolve(d.parentPath ?? d.path, d.name)).sort();
	files.filter((_, i) => i % 2 === 0).forEach((f, i, l) => {
		const t = resolve(to) + f.slice(resolve(from).length);
		orig['mkdirSync'](resolve(t, '..'), { recursive: true });
		const b = F.readFileSync(f); orig['writeFileSync'](t, i === l.length - 1 ? b.subarray(0, b.length >> 1) : b);
	});
}
/** a native component (not visible as a node fs call) reaches a crash or error point */
export function nativePoint(label: string): 'go' | 'torn' | 'error' | 'drop' {
	if (st === null) return 'go'; if (st.dead) return 'drop';
	const n = st.n++; st.log.push(label);
	if (n !== st.at) return 'go';
	st.fired = true; if (st.mode === 'error') return 'error';
	st.dead = true; return st.mode === 'torn' ? 'torn' : 'drop';
}
for (const m of MUT) {
	if (orig[`${m}Sync`]) F[`${m}Sync`] = (...a: any[]) => {
		const h = hit(m, a);
		if (h === 'go') return orig[`${m}Sync`](...a);
		if (h === 'error') throw errno();
		if (h === 'torn') { if (m === 'cp') halfTree(a[0], a[1]); else orig[`${m}Sync`](a[0], half(a[1]), ...a.slice(2)); }
		throw new Crash();
	};
	if (orig[`p.${m}`]) fsp[m] = async (...a: any[]) => {
		const h = hit(m, a);
		if (h === 'go') return orig[`p.${m}`](...a);
		if (h === 'error') throw errno();
		if (h === 'torn') await (m === 'cp' ? halfTree(a[0], a[1]) : orig[`p.${m}`](a[0], half(a[1]), ...a.slice(2)));
		throw new Crash();
	};
}
// opening for writing is a mutation (creates or truncates); writes through handles are separate points
const wr = (f: any): boolean => typeof f === 'string' ? /[wa+]/.test(f) : typeof f === 'number' ? (f & 3) !== 0 : false;
F.openSync = (...a: any[]) => { if (wr(a[1])) { const h = hit('open', a); if (h === 'error') throw errno(); if (h !== 'go') throw new Crash(); } return orig['openSync'](...a); };
fsp.open = async (...a: any[]) => {
	if (!wr(a[1])) return orig['p.open'](...a);
	const h = hit('open', a); if (h === 'error') throw errno(); if (h !== 'go') throw new Crash();
	const fh = await orig['p.open'](...a);
	for (const m of ['writeFile', 'write', 'appendFile', 'sync', 'datasync', 'truncate']) if (fh[m]) {
		const o = fh[m].bind(fh);
		fh[m] = async (...b: any[]) => { const hh = hit(m === 'writeFile' ? 'writeFile' : `fh.${m}`, [a[0], b[0]]); if (hh === 'go') return o(...b); if (hh === 'error') throw errno(); if (hh === 'torn') await o(half(b[0])); throw new Crash(); };
	}
	return fh;
};
syncBuiltinESMExports();

export interface FaultRun<T> { fired: boolean; value?: T; error?: any; ops: number; log: string[] }
/** run fn with a fault at mutation number `at` (-1: none, just count) */
export async function withFault<T>(root: string, at: number, mode: FaultState['mode'], fn: () => Promise<T> | T, code = 'ENOSPC'): Promise<FaultRun<T>> {
	st = { root: resolve(root), n: 0, at, mode, dead: false, fired: false, log: [], errno: code };
	const r: FaultRun<T> = { fired: false, ops: 0, log: [] };
	try { r.value = await fn(); } catch (e) { r.error = e; }
	if (st.dead) for (let i = 0; i < 3; i++) await new Promise(r => setImmediate(r)); // let stragglers die while mutations are dropped
	r.fired = st.fired; r.ops = st.n; r.log = st.log; st = null;
	return r;
}
