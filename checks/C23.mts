// C23: the file tools do exactly what was asked or nothing.
import fs from 'node:fs';
import { createRequire, syncBuiltinESMExports } from 'node:module';
import { join, dirname, basename, resolve } from 'node:path';
import { Check, main, THOROUGH, SCRATCH, repo, product, show } from '../lib/mc.mts';

const fsp: any = createRequire(import.meta.url)('node:fs/promises'); const F: any = fs;
const W = join(SCRATCH, 'w'), MUT = ['rename', 'rm', 'rmdir', 'unlink', 'cp', 'copyFile', 'writeFile', 'mkdir', 'truncate', 'appendFile'], READS = ['readFile', 'stat', 'lstat', 'readdir'];
let armed = false, n = 0, at = -1, code = '', trace: string[] = [];
const dev = (p: unknown): boolean => String(p).startsWith(join(W, 'm') + '/');
// containment: while a tool runs, nothing outside the scratch tree may be changed; such a call is recorded and not made
let escaped = '';
const guard = (m: string, a: any[]): void => { if (MUT.includes(m)) for (const p of [a[0], ...(m === 'rename' || m === 'cp' || m === 'copyFile' ? [a[1]] : [])]) if (typeof p === 'string' && !resolve(p).startsWith(`${W}/`) && !resolve(p).startsWith('/tmp/.insrc') && !(m === 'mkdir' && resolve(p) === W)) { escaped = `${m} ${p}`; throw new Error('outside the scratch tree'); } };
for (const m of MUT) { const o = F[`${m}Sync`]; if (o) F[`${m}Sync`] = (...a: any[]) => { if (armed) guard(m, a); return o.apply(F, a); }; }
for (const m of [...MUT, ...READS]) { const o = fsp[m]; fsp[m] = async (...a: any[]) => {
	if (!armed || typeof a[0] !== 'string') return o.apply(fsp, a);
	guard(m, a);
	const k = n++; trace.push(`${m} ${basename(a[0])}`);
	if (k === at) throw Object.assign(new Error(`${code}: injected`), { code });
	if (m === 'rename' && dev(a[0]) !== dev(a[1]) && F.existsSync(dirname(String(a[1])))) throw Object.assign(new Error('EXDEV: cross-device link not permitted'), { code: 'EXDEV' });
	return o.apply(fsp, a);
}; }
syncBuiltinESMExports();
type Node = string; type Tree = Record<string, Node>; // 'd', 'f:<latin1 bytes>', 'l:<target>'
const BASE: Tree = { f: 'f:one\ntwo', g: 'f:gee', d: 'd', 'd/x': 'f:dx', 'd/y': 'd', 'd/y/z': 'f:dyz', e: 'd', l: 'l:f', ld: 'l:d', broken: 'l:nowhere', m: 'd', 'm/q': 'f:mq', 'm/h': 'd', 'm/h/x': 'f:mhx', 'm/h/w': 'f:mhw' };
const snap = (): Tree => { const t: Tree = {}; const walk = (p: string): void => { for (const e of F.readdirSync(join(W, p), { withFileTypes: true })) { const q = p ? `${p}/${e.name}` : e.name; if (e.isSymbolicLink()) t[q] = `l:${F.readlinkSync(join(W, q))}`; else if (e.isDirectory()) { t[q] = 'd'; walk(q); } else t[q] = `f:${F.readFileSync(join(W, q)).toString('latin1')}`; } }; walk(''); return t; };
const build = (t: Tree): void => { F.rmSync(W, { recursive: true, force: true }); F.mkdirSync(W, { recursive: true }); for (const [p, v] of Object.entries(t)) { const a = join(W, p); if (v === 'd') F.mkdirSync(a); else if (v[0] === 'l') F.symlinkSync(v.slice(2), a); else F.writeFileSync(a, Buffer.from(v.slice(2), 'latin1')); } };
const text = (t: Tree): string => JSON.stringify(Object.entries(t).sort(([a], [b]) => (a < b ? -1 : 1)));
const follow = (t: Tree, p: string, i = 0): string | null => { // the real path of p, its last component included
	if (i > 9) return null; const parts = p.split('/'); for (let k = 1; k <= parts.length; k++) { const q = parts.slice(0, k).join('/'), v = t[q]; if (v === undefined) return k === parts.length ? q : null; if (v[0] === 'l') return follow(t, [v.slice(2), ...parts.slice(k)].join('/'), i + 1); if (v[0] === 'f' && k < parts.length) return null; } return p; };
const realParent = (t: Tree, p: string): string | null => { if (!p.includes('/')) return p; const par = follow(t, dirname(p)); return par === null || (t[par] !== undefined && t[par] !== 'd') ? null : `${par}/${basename(p)}`; };
/** the path with symlinks resolved in its existing ancestors; null when an ancestor is no directory */
function place(t: Tree, p: string): string | null { const parts = p.split('/'); let cur = ''; for (let k = 0; k < parts.length - 1; k++) { const q = cur ? `${cur}/${parts[k]}` : parts[k]!; const v = t[q]; if (v === undefined) return [q, ...parts.slice(k + 1)].join('/'); if (v[0] === 'f') return null; if (v[0] === 'l') { const r = follow(t, q); if (r === null || t[r] !== 'd') return null; cur = r; } else cur = q; } return cur ? `${cur}/${parts.at(-1)}` : parts.at(-1)!; }
const parents = (t: Tree, p: string, mk: boolean): Tree | null => { const o = { ...t }, s = p.split('/').slice(0, -1); for (let k = 1; k <= s.length; k++) { const q = s.slice(0, k).join('/'); if (o[q] === undefined) { if (!mk) return null; o[q] = 'd'; } else if (o[q] !== 'd') return null; } return o; };
const sub = (t: Tree, p: string): [string, Node][] => Object.entries(t).filter(([k]) => k === p || k.startsWith(`${p}/`));
const drop = (t: Tree, p: string): Tree => Object.fromEntries(Object.entries(t).filter(([k]) => k !== p && !k.startsWith(`${p}/`)));
type Want = Tree | null | 'any';
/** what each call must leave behind; null: it must fail and change nothing */
function wantMove(t: Tree, a: any, copy: boolean): Want {
	const s = place(t, a.from), d = place(t, a.to); if (s === null || t[s] === undefined || d === null) return null;
	if ((a.to + '/').startsWith(`${a.from}/`) || (a.from + '/').startsWith(`${a.to}/`)) { if (!copy || a.from === a.to || (t[s] === 'd' && (d + '/').startsWith(`${s}/`))) return null; if (copy && t[s] === 'd') return 'any'; }
	if (s === d || (t[s] === 'd' && (d + '/').startsWith(`${s}/`)) || (s + '/').startsWith(`${d}/`)) return copy && s !== d && !(d + '/').startsWith(`${s}/`) ? 'any' : null;
	const has = t[d] !== undefined; if (has && a.overwrite !== true) return null;
	const o = parents(t, d, a.mkdirp !== false); if (o === null) return copy && a.mkdirp === false && parents(t, d, true) !== null ? 'any' : null;
	if (copy) {
		if (t[s]![0] === 'l' || t[d]?.[0] === 'l') return 'any'; if (t[s] === 'd' && a.recursive === false) return null;
		if (has && (t[s] === 'd') !== (t[d] === 'd')) return null; for (const [k, v] of sub(t, s)) o[d + k.slice(s.length)] = v; return o;
	}
	const moved = sub(t, s); let r = drop(drop(o, d), s); for (const [k, v] of moved) r = { ...r, [d + k.slice(s.length)]: v }; return r;
}
function wantOther(t: Tree, tool: string, a: any): Want {
	const p = place(t, a.path); if (p === null) return null; const v = t[p];
	if (tool === 'file_delete') { if (v === undefined) return null; if (v === 'd' && a.recursive !== true && sub(t, p).length > 1) return null; return drop(t, p); }
	if (tool === 'file_mkdir') { if (v !== undefined) return a.recursive !== false && (v === 'd' || t[follow(t, p) ?? ''] === 'd') ? t : null; const o = parents(t, p, a.recursive !== false); return o && { ...o, [p]: 'd' }; }
	const r = v?.[0] === 'l' ? follow(t, p) : p; if (r === null || t[r] === 'd') return null; const o = parents(t, r, a.mkdirp !== false); return o && { ...o, [r]: `f:${Buffer.from(a.content).toString('latin1')}` };
}
let X: any, CHK: Check;
const abs = (a: any): any => { const o = { ...a }; for (const k of ['path', 'from', 'to']) if (typeof o[k] === 'string' && o[k] !== '') o[k] = join(W, o[k]); return o; };
async function call(tool: string, a: any, fault = -1, c = ''): Promise<any> { n = 0; at = fault; code = c; trace = []; armed = true; try { return await X.executeTool(tool, abs(a), { sessionId: 's', repoPath: W, send: () => { }, requestId: 1 }); } finally { armed = false; if (escaped) { const e = escaped; escaped = ''; CHK.violation(`escape ${tool} ${JSON.stringify(a)}`.slice(0, 300), `${tool} ${JSON.stringify(a)} reaches outside the paths it was given: ${e}`, a); } } }
/** may `got` be what a failing call left: the old tree, plus new empty parent directories of the target */
function untouched(before: Tree, got: Tree, target: string): boolean { const g = { ...got }; const tp = place(before, target) ?? target; for (const k of Object.keys(g)) if (before[k] === undefined && g[k] === 'd' && tp.startsWith(`${k}/`)) delete g[k]; return text(g) === text(before); }
async function one(tool: string, a: any): Promise<{ bad: string | null; ops: number; ok: boolean }> {
	build(BASE); const w = tool === 'file_move' || tool === 'file_copy' ? wantMove(BASE, a, tool === 'file_copy') : wantOther(BASE, tool, a), target = a.to ?? a.path;
	const r = await call(tool, a), ops = n, got = snap(); if (typeof r?.success !== 'boolean' || typeof r.output !== 'string') return { bad: `returned ${show(r)}`, ops, ok: false };
	if (w === 'any') { if (!r.success) return { bad: null, ops, ok: false }; const s = place(BASE, a.from)!; return { bad: sub(BASE, s).every(([k, v]) => got[k] === v || (place(BASE, a.to) ?? '').startsWith(k) || k.startsWith(place(BASE, a.to) ?? '?')) ? null : 'the source of a copy changed', ops, ok: true }; }
	if (w === null) return { bad: r.success ? `reported success and left ${diffs(BASE, got)}` : untouched(BASE, got, target) ? null : `failed (${r.error}) but left ${diffs(BASE, got)}`, ops, ok: false };
	if (!r.success) return { bad: `refused: ${r.error}`, ops, ok: false };
	return { bad: text(got) === text(w) ? null : `left ${diffs(w, got)}`, ops, ok: true };
}
const diffs = (w: Tree, g: Tree): string => { const o: string[] = []; for (const k of new Set([...Object.keys(w), ...Object.keys(g)])) if (w[k] !== g[k]) o.push(`${k}: ${show(g[k] ?? 'gone')} instead of ${show(w[k] ?? 'nothing')}`); return o.slice(0, 5).join('; '); };
/** one filesystem call fails: the tool must not report success unless the result is complete, and no file is lost */
async function faulted(tool: string, a: any, k: number, c: string): Promise<string | null> {
	build(BASE); const w = tool === 'file_move' || tool === 'file_copy' ? wantMove(BASE, a, tool === 'file_copy') : wantOther(BASE, tool, a); if (w === 'any') return null;
	const r = await call(tool, a, k, c), got = snap(), what = trace[k] ?? '-', target = a.to ?? a.path;
	if (r.success) return w === null || (text(got) !== text(w) && !(tool === 'file_move' && /^r(m|mdir) /.test(what) && Object.entries(w).every(([p, v]) => got[p] === v))) ? `with ${c} at call ${k} (${what}) it reports success but left ${diffs(w ?? BASE, got)}` : null;
	if (untouched(BASE, got, target)) return null;
	if (tool === 'file_move') { // the copy is complete and only removing the source failed
		const s = place(BASE, a.from)!, d = place(BASE, a.to)!; if (/^(rm|unlink|rmdir) /.test(what) && sub(BASE, s).every(([p, v]) => got[p] === v && got[d + p.slice(s.length)] === v)) return null;
	}
	if (tool === 'file_copy' && Object.entries(BASE).every(([p, v]) => got[p] === v || (a.overwrite === true && (p + '/').startsWith(`${place(BASE, a.to)}`)))) return null;
	return `with ${c} at call ${k} (${what}) it fails (${r.error}) and leaves ${diffs(BASE, got)}`;
}
/** literal replacement, on bytes */
function wantEdit(t: Buffer, edits: { o: any; n: any; all: any }[]): Buffer | null {
	let s = t.toString('latin1'); if (Buffer.from(t.toString('utf8')).compare(t) !== 0) return null; if (edits.length === 0) return null;
	for (const e of edits) { if (typeof e.o !== 'string' || typeof e.n !== 'string' || e.o === '') return null; const o = Buffer.from(e.o).toString('latin1'), nn = Buffer.from(e.n).toString('latin1'); const parts = s.split(o); if (parts.length < 2 || (e.all !== true && parts.length > 2)) return null; s = parts.join(nn); }
	return Buffer.from(s, 'latin1');
}
const P = 't.txt';
async function edit(tool: string, body: Buffer, input: any, edits: any[], fault = -1): Promise<string | null> {
	F.writeFileSync(join(W, P), body); const r = await call(tool, { path: P, ...input }, fault, 'EIO'), got = F.readFileSync(join(W, P)) as Buffer, w = wantEdit(body, edits);
	if (fault >= 0) { if (got.equals(body) && !r.success) return null; if (r.success && w && got.equals(w)) return null; return `with an error at call ${fault} it leaves ${show(got.toString())} (success ${r.success})`; }
	if (w === null) return r.success ? `reports success, leaving ${show(got.toString())}` : got.equals(body) ? null : `fails but leaves ${show(got.toString())}`;
	return !r.success ? `refused: ${r.error}` : got.equals(w) ? null : `leaves ${show(got.toString())}, expected ${show(w.toString())}`;
}
main(async () => {
	const chk = new Check('C23', 'fault_enumeration');
	CHK = chk; X = await repo('src/daemon/tools/executor.ts'); const reg = await repo('src/daemon/tools/builtins/file/index.ts'), list = await repo('src/daemon/tools/registry.ts'); reg.registerFileTools();
	chk.rule = 'every call of the file tools within the bound runs on a fresh scratch tree (two simulated devices) and the whole tree is compared with a specification; then every filesystem call it makes fails once per error';
	chk.extra['bounds'] = 'move and copy: 17 x 17 paths x overwrite x mkdirp (x recursive); write, delete, mkdir on 17 paths with all flags; every call of each failing with two errors; edits: all texts up to length 4 over {a,b,$,&} x 12 patterns x 7 replacements x 2, all pairs of 56 edits on 20 texts, malformed edits at every place, non-UTF-8 contents; reads: all offsets and limits of 7 texts';
	await chk.sharded(async mine => {
		let i = 0; const fail = (k: string, what: string, h: any): void => { chk.violation(k.slice(0, 300), what, h); };
		const PATHS = ['f', 'g', 'd', 'd/x', 'd/y', 'e', 'l', 'ld', 'broken', 'new', 'n1/n2', 'f/x', 'ld/k', 'e/k', 'm/q', 'm/h', 'm/new'], OV = [undefined, true, false], calls: [string, any][] = [];
		for (const [from, to, overwrite, mkdirp] of product<any>(PATHS, PATHS, OV, [undefined, false])) for (const t of ['file_move', 'file_copy']) for (const recursive of t === 'file_copy' ? [undefined, false] : [undefined]) calls.push([t, JSON.parse(JSON.stringify({ from, to, overwrite, mkdirp, recursive }))]);
		for (const path of PATHS) { for (const content of ['', 'new\n', 'é']) for (const mkdirp of [undefined, false]) calls.push(['file_write', JSON.parse(JSON.stringify({ path, content, mkdirp }))]); for (const recursive of OV) calls.push(['file_delete', JSON.parse(JSON.stringify({ path, recursive }))], ['file_mkdir', JSON.parse(JSON.stringify({ path, recursive }))]); }
		for (const [t, a] of calls) {
			if (!mine(i++)) continue; chk.states++; chk.evaluations++;
			const r = await one(t, a); if (r.bad) { fail(`${t} ${JSON.stringify(a)}`, `${t} ${JSON.stringify(a)} ${r.bad}`, { tool: t, input: a, tree: BASE }); return; }
			if (r.ok) { chk.nontrivial++; for (let k = 0; k < r.ops; k++) for (const c of THOROUGH ? ['EIO', 'EACCES', 'ENOSPC'] : ['EIO', 'EACCES']) { chk.evaluations++; const bad = await faulted(t, a, k, c); if (bad) { fail(`${t} ${JSON.stringify(a)} ${c}@${k}`, `${t} ${JSON.stringify(a)}: ${bad}`, { tool: t, input: a, fault: c, at: k }); return; } } }
			if (i % 5 === 0) { build(BASE); const tool = list.getTool(t); try { await tool.buildApprovalGate?.(abs(a)); } catch (e) { fail(`gate ${t}`, `describing ${t} ${JSON.stringify(a)} throws ${(e as Error).message}`, a); return; } if (text(snap()) !== text(BASE)) { fail(`gate ${t}`, `describing ${t} ${JSON.stringify(a)} for approval already changes files`, a); return; } }
			if (i % 311 === 0) chk.sample({ tool: t, ...a, ok: r.ok });
		}
		build(BASE);
		if (mine(i++)) for (const t of ['file_write', 'file_edit', 'file_multi-edit', 'file_delete', 'file_move', 'file_copy', 'file_mkdir', 'file_read', 'file_stat']) for (const a of [{}, { path: '' }, { path: 5 }, { path: 'f' }, { from: 'f' }, { to: 'g' }, { from: 'f', to: '' }, { path: 'f', content: 5 }, { path: 'f', oldString: 'o' }, { path: 'f', oldString: 'o', newString: null }, { path: 'f', oldString: 5, newString: 'x' }, { path: 'f', oldString: '', newString: 'x' }, { path: 'f', edits: 'x' }, { path: 'f', edits: [] }] as any[]) {
			const okCall = a.path === 'f' && ['file_delete', 'file_read', 'file_stat'].includes(t); if (okCall) continue; chk.evaluations++;
			const r = await call(t, a), got = snap(); if (r.success || text(got) !== text(BASE)) { fail(`malformed ${t} ${JSON.stringify(a)}`, `malformed call ${t} ${JSON.stringify(a)}: success ${r.success}, ${diffs(BASE, got)}`, a); return; }
		}
		// ---- edits
		const alpha = ['a', 'b', '$', '&'], texts: string[] = ['']; for (let len = 1; len <= 4; len++) for (const t of product<string>(...Array.from({ length: len }, () => alpha))) texts.push(t.join(''));
		const news = ['', 'x', '$&', '$$', '$`', '$1', 'ab'], olds = ['a', 'b', '$', '&', 'ab', 'aa', '$&', 'ba', '$$', 'aab', 'c', ''];
		const bytes: Buffer[] = [Buffer.from([0xff, 0x61]), Buffer.from([0x61, 0x80, 0x62]), Buffer.from('\ufeffa\r\nb'), Buffer.from('é a ü'), Buffer.from('\ufffda'), Buffer.from([0xed, 0xa0, 0x80, 0x61]), Buffer.from('a\0b'), Buffer.from('a\r\n\r\n')];
		for (const [k, body] of [...texts.map(t => Buffer.from(t)), ...bytes].entries()) for (const [o, nw, all] of product<any>(k >= texts.length ? [...olds, 'é', '\r\n', '\n'] : olds, news, [undefined, true])) {
			if (!mine(i++)) continue; chk.evaluations++;
			const bad = await edit('file_edit', body, { oldString: o, newString: nw, ...(all ? { replaceAll: true } : {}) }, [{ o, n: nw, all }]);
			if (bad) { fail(`edit ${show(body.toString('latin1'))} ${o} ${nw} ${all}`, `file_edit of ${show(body.toString('latin1'))}, ${show(o)} -> ${show(nw)}${all ? ' (all)' : ''}: ${bad}`, { body: body.toString('latin1'), oldString: o, newString: nw, replaceAll: all }); return; }
		}
		const E: any[] = []; for (const [o, nw, all] of product<any>(['a', 'b', 'ab', '$', 'x', '$&', ''], ['', 'a', '$&', 'xb'], [false, true])) E.push({ oldString: o, newString: nw, ...(all ? { replaceAll: true } : {}) });
		const broken = [{ oldString: 'a' }, { newString: 'a' }, null, 5, { oldString: 1, newString: 'a' }, 'a']; const asSpec = (e: any): any => ({ o: e?.oldString, n: e?.newString, all: e?.replaceAll });
		for (const body of ['a', 'ab', 'aab', 'ba', 'abab', '$a', 'a$&', 'xbx', 'b', 'aa', 'é a', '\u0000a', 'abx', '$$', 'a\nb\n', 'bab', 'axb', 'xx', '&$', '']) for (const e1 of [...E, ...broken]) for (const e2 of [...E, ...broken]) {
			if (!mine(i++)) continue; if (broken.includes(e1) && broken.includes(e2)) continue; chk.evaluations++;
			const es = [e1, e2], b = Buffer.from(body), bad = await edit('file_multi-edit', b, { edits: es }, es.map(asSpec));
			if (bad) { fail(`multi ${show(body)} ${JSON.stringify(es)}`, `file_multi-edit of ${show(body)} with ${JSON.stringify(es)}: ${bad}`, { body, edits: es }); return; }
			if (i % 97 === 0) for (let k = 0; k < 3; k++) { const bf = await edit('file_multi-edit', b, { edits: es }, es.map(asSpec), k); if (bf) { fail(`multi fault ${show(body)}`, `file_multi-edit of ${show(body)} with ${JSON.stringify(es)}: ${bf}`, { body, edits: es, at: k }); return; } const g = await edit('file_edit', b, e1, [asSpec(e1)], k); if (g && e1 && !broken.includes(e1)) { fail(`edit fault ${show(body)}`, `file_edit of ${show(body)} with ${JSON.stringify(e1)}: ${g}`, { body, edit: e1, at: k }); return; } }
		}
		// ---- reads
		for (const body of ['', 'one', 'a\n', 'a\nb\nc', '\n\n', 'a\r\nb', 'l1\nl2\nl3\nl4\nl5\n']) for (const [offset, limit, num] of product<any>([undefined, 1, 2, 3, 5, 6, 7, 99, 0, -1, 2.5, '2'], [undefined, 1, 2, 4, 100, 0, -3, 60000, 1.5], [undefined, false, true])) {
			if (!mine(i++)) continue; chk.evaluations++; build({}); F.writeFileSync(join(W, P), body);
			const r = await call('file_read', JSON.parse(JSON.stringify({ path: P, offset, limit, showLineNumbers: num }))); const lines = body.split('\n'), off = typeof offset === 'number' ? Math.max(1, Math.floor(offset)) : 1, lim = typeof limit === 'number' ? Math.max(1, Math.min(50000, Math.floor(limit))) : 2000, want = lines.slice(off - 1, off - 1 + lim), shown = r.output.split('```\n').slice(1).join('```\n').replace(/\n```$/, '');
			const exp = want.map((l: string, k: number) => num === false ? l : `${String(off + k).padStart(6)}\t${l}`).join('\n');
			if (!r.success || shown !== exp || r.data.lines !== lines.length || r.data.linesReturned !== want.length || r.data.bytes !== Buffer.byteLength(body) || F.readFileSync(join(W, P), 'utf8') !== body) { fail(`read ${show(body)} ${offset} ${limit} ${num}`, `reading ${show(body)} from line ${offset}, ${limit} lines: ${show(shown)} (${show(r.data)}), expected ${show(exp)}`, { body, offset, limit }); return; }
		}
		if (mine(i++)) { build(BASE); for (const p of PATHS) for (const followSymlinks of [undefined, false]) { chk.evaluations++; const r = await call('file_stat', JSON.parse(JSON.stringify({ path: p, followSymlinks }))), pl = place(BASE, p), v = pl === null ? undefined : followSymlinks === false ? BASE[pl] : BASE[BASE[pl]?.[0] === 'l' ? follow(BASE, pl) ?? '?' : pl]; const want = v === undefined ? undefined : v === 'd' ? 'directory' : v[0] === 'l' ? 'symlink' : 'file'; if ((r.success ? r.data.kind : undefined) !== want) { fail(`stat ${p} ${followSymlinks}`, `file_stat of ${p} says ${show(r.data?.kind)}, expected ${want}`, { p }); return; } } if (text(snap()) !== text(BASE)) fail('stat changes', 'file_stat changed the tree', {}); }
	});
	void realParent; chk.finish();
});
