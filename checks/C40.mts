// C40: the search tools list exactly the files, entries and lines that match, under the directory permission was asked for.
import { Check, main, THOROUGH, repo, SCRATCH, subsets, product } from '../lib/mc.mts';
import { mkdirSync, writeFileSync, symlinkSync, utimesSync, rmSync, lstatSync, statSync, readdirSync, readFileSync, chmodSync } from 'node:fs';
import { join, relative, isAbsolute } from 'node:path';

const NOW = Date.parse('2026-03-04T05:06:07Z'), MIN = 60_000;
type F = { p: string; age?: number; text?: string; link?: string; dir?: boolean };
const MENU: F[] = [
	{ p: 'a.ts', age: 10, text: 'alpha\nbeta alpha\n\nGamma\n  alpha: 12: x\n' }, { p: 'b.js', age: 20, text: 'ALPHA' }, { p: 'src/a.ts', age: 5, text: 'beta\nbeta\nbeta\n' }, { p: 'src/mya.ts', age: 61, text: 'x alpha y\n' },
	{ p: 'src/deep/x/a.ts', age: 60, text: 'alpha'.repeat(150) + '\n' }, { p: 'src/deep/b.ts', age: 59, text: 'ünï alpha\nalphabet\n' }, { p: '.hid.ts', age: 1, text: 'alpha\n' }, { p: 'src/.h/c.ts', age: 2, text: 'alpha\n' },
	{ p: 'node_modules/m/a.ts', age: 3, text: 'alpha\n' }, { p: 'src/dist/o.ts', age: 4, text: 'alpha\n' }, { p: 'we ird[1]+{x}.ts', age: 100, text: 'beta\nalpha\n' }, { p: 'src/ü.ts', age: 61.5, text: 'a.c\nabc\n(x)\n$' },
	{ p: 'ln.ts', link: 'a.ts' }, { p: 'lnd', link: 'src' }, { p: 'gone.ts', link: 'nowhere' }, { p: 'empty', dir: true }, { p: 'srcx/a.ts', age: 7, text: 'alpha\nbeta\n' }, { p: 'src.ts', age: 8, text: '' },
];
const IGN = new Set(['.git', 'node_modules', '.build', 'out', 'dist', '.next', '.cache']);
let seq = 0;
function build(fs: F[]): string {
	const d = join(SCRATCH, `t${seq++}`); mkdirSync(d, { recursive: true });
	for (const f of fs) {
		const at = join(d, f.p); mkdirSync(join(at, '..'), { recursive: true });
		if (f.dir) mkdirSync(at, { recursive: true }); else if (f.link !== undefined) symlinkSync(f.link, at);
		else { writeFileSync(at, f.text!); const t = new Date(NOW - f.age! * MIN); utimesSync(at, t, t); }
	}
	return d;
}
type E = { path: string; kind: 'file' | 'directory' | 'symlink' };
/** every entry below a directory, by the documented rules of the walks */
function below(root: string, hidden: boolean, recursive = true, ign = recursive, rel = ''): E[] {
	const out: E[] = [];
	for (const n of readdirSync(join(root, rel))) {
		if ((!hidden && n.startsWith('.')) || (ign && IGN.has(n))) continue;
		const p = rel === '' ? n : `${rel}/${n}`, st = lstatSync(join(root, p));
		out.push({ path: p, kind: st.isDirectory() ? 'directory' : st.isSymbolicLink() ? 'symlink' : 'file' });
		if (st.isDirectory() && recursive) out.push(...below(root, hidden, recursive, ign, p));
	}
	return out;
}
const files = (root: string, hidden: boolean): string[] => below(root, hidden).filter(e => e.kind === 'file').map(e => e.path);
/** a glob matcher by descent over pattern and path */
function glob(pat: string, s: string): boolean {
	const go = (i: number, j: number): boolean => {
		if (i === pat.length) return j === s.length;
		const c = pat[i]!;
		if (c === '*' && pat[i + 1] === '*') {
			if (pat[i + 2] === '/') { if (go(i + 3, j)) return true; for (let k = j; k < s.length; k++) if (s[k] === '/' && go(i + 3, k + 1)) return true; return false; }
			for (let k = j; k <= s.length; k++) if (go(i + 2, k)) return true; return false;
		}
		if (c === '*') { for (let k = j; k <= s.length; k++) { if (go(i + 1, k)) return true; if (s[k] === '/') return false; } return false; }
		if (j >= s.length) return false;
		if (c === '?') return s[j] !== '/' && go(i + 1, j + 1);
		if (c === '[') { const e = pat.indexOf(']', i + 1); if (e > i + 1) { const set = pat.slice(i + 1, e); let hit = false; for (let k = 0; k < set.length; k++) { if (set[k + 1] === '-' && set[k + 2] !== undefined) { if (s[j]! >= set[k]! && s[j]! <= set[k + 2]!) hit = true; k += 2; } else if (set[k] === s[j]) hit = true; } return hit && go(e + 1, j + 1); } }
		if (c === '\\' && i + 1 < pat.length) return pat[i + 1] === s[j] && go(i + 2, j + 1);
		return c === s[j] && go(i + 1, j + 1);
	};
	return go(0, 0);
}
/** patterns whose meaning the documentation settles: `**` stands for whole directories or the whole rest */
const settled = (p: string): boolean => !/\*\*\*/.test(p) && [...p.matchAll(/\*\*/g)].every(m => (m.index === 0 || p[m.index - 1] === '/') && (m.index + 2 === p.length || p[m.index + 2] === '/')) && !/\\$/.test(p) && !p.includes('[]');

await main(async () => {
	const chk = new Check('C40', 'exploration');
	chk.rule = 'every glob of up to 3 parts (thorough: 4) and a list of hand-made ones, every combination of options and limits, over a tree with hidden, ignored, linked, oddly named and equally named files and over all small trees; greps by a Node scan and through a stand-in ripgrep that prints what ripgrep prints; recent files at, one second before and after the cutoff';
	delete process.env['RIPGREP_CONFIG_PATH'];
	const SE = await repo('src/daemon/tools/builtins/search/index.ts'), RG = await repo('src/daemon/tools/registry.ts'), GR = await repo('src/daemon/tools/builtins/search/grep.ts');
	RG._resetRegistryForTests(); SE.registerSearchTools();
	const realNow = Date.now; Date.now = () => NOW;
	const run = async (id: string, input: any, arg: string, root: string): Promise<any> => {
		chk.evaluations++; chk.states++;
		const t = RG.getTool(id), key = await t.access.extractKey(input), r = await t.execute(input, {});
		if (key !== root) chk.violation('search-scope', `${id}: permission was asked for ${key}, searched ${root}`, { id, input });
		if (r.success) { const at = r.data[arg === 'cwd' ? 'cwd' : id === 'search_list-dir' ? 'path' : 'root']; if (at !== root) chk.violation('search-scope', `${id} searched ${at} instead of ${root}`, { id, input }); }
		return r;
	};
	/** the listing agrees with what was asked, whole or cut at the limit */
	const listed = (id: string, input: any, got: string[], want: string[], truncated: boolean, limit: number, out: string): void => {
		const w = new Set(want), dup = got.length !== new Set(got).size, bad = got.filter(p => !w.has(p));
		const n = Math.min(limit, want.length);
		if (dup || bad.length > 0 || got.length !== n) { chk.violation('search-exact', `${id} lists ${JSON.stringify(got.slice(0, 12))} (${got.length}) where ${JSON.stringify(want.slice(0, 12))} (${want.length}, limit ${limit}) match`, { id, input }); return; }
		if (want.length > limit && !truncated) chk.violation('search-truncated', `${id} does not say that its ${n} of ${want.length} results were cut`, { id, input });
		if (want.length < limit && truncated) chk.violation('search-truncated', `${id} says that its complete list was cut`, { id, input });
		for (const p of got) if (!out.includes(p)) chk.violation('search-report', `${id} does not print ${p}`, { id, input, out });
		if (got.length > 0) chk.nontrivial++;
	};
	const mtime = (root: string, p: string): number => lstatSync(join(root, p)).mtimeMs;
	const doGlob = async (root: string, pattern: string, x: any = {}): Promise<void> => {
		const input = { pattern, cwd: root, ...x }, r = await run('search_glob', input, 'cwd', root);
		if (!r.success) { chk.violation('search-exact', `search_glob fails: ${r.error}`, { input }); return; }
		listed('search_glob', input, r.data.matches, files(root, x.includeHidden === true).filter(p => glob(pattern, p)), r.data.truncated, x.limit ?? 500, r.output);
		for (let i = 1; i < r.data.matches.length; i++) if (mtime(root, r.data.matches[i - 1]) < mtime(root, r.data.matches[i])) chk.violation('search-order', `search_glob lists ${r.data.matches[i - 1]} before the newer ${r.data.matches[i]}`, { input });
	};
	const all = build(MENU);
	// globs
	const PARTS = ['a', '.ts', '*', '**/', '?', '/', '[a-m]', '\\*', 'src', '+', '**', 's', '{x}', '.', 'deep'];
	for (let n = 1; n <= (THOROUGH ? 4 : 3); n++) for (const seqp of product(...Array.from({ length: n }, () => PARTS))) { const p = seqp.join(''); if (settled(p)) await doGlob(all, p); }
	const HAND = ['**', '*', '**/*', '**/a.ts', 'src/**/a.ts', 'src/**', 'src/*/*.ts', '**/deep/**', '**/deep/**/a.ts', 'we ird\\[1\\]+{x}.ts', 'we*', '*[[]1]*', 'src/[aü].ts', '**/.h/*', '.hid.ts', 'node_modules/**', 'src/dist/*', 'ln.ts', 'lnd/*', 'a.t', 'A.ts', 'a?ts', '[abc].ts', '[x-z]*', 'src/??.ts', '**/x/**/a.ts', '*/**/a.ts', '\\a.ts', '\\s\\rc.ts', 'src/\\d\\e\\ep/*', '(a|b).ts', 'a.ts|b.js', '^a.ts$', '[unclosed', '*.{ts,js}', 'src\\.ts', '\\?', 'src//a.ts', '/a.ts', './a.ts', '**/src/a.ts', 'src/**/**/a.ts'];
	for (const p of HAND) for (const [h, l] of product([undefined, false, true], [undefined, 1, 2, 3, 5, 100])) await doGlob(all, p, { ...(h === undefined ? {} : { includeHidden: h }), ...(l === undefined ? {} : { limit: l }) });
	// every small tree
	const small = MENU.filter(f => ['a.ts', 'src/a.ts', 'src/deep/x/a.ts', '.hid.ts', 'src/.h/c.ts', 'node_modules/m/a.ts', 'ln.ts', 'lnd', 'empty', 'srcx/a.ts'].includes(f.p));
	const doList = async (root: string, x: any): Promise<void> => {
		const input = { path: root, ...x }, r = await run('search_list-dir', input, 'path', root);
		if (!r.success) { chk.violation('search-exact', `search_list-dir fails: ${r.error}`, { input }); return; }
		const want = below(root, x.includeHidden === true, x.recursive === true).filter(e => x.onlyKind === undefined || e.kind === x.onlyKind), by = new Map(want.map(e => [e.path, e.kind]));
		listed('search_list-dir', input, r.data.entries.map((e: any) => e.path), want.map(e => e.path), r.data.truncated, x.limit ?? 500, r.output);
		for (const e of r.data.entries) {
			let st: any; try { st = statSync(join(root, e.path)); } catch { /* dangling */ }
			if (e.kind !== by.get(e.path) || e.name !== e.path.split('/').at(-1)) chk.violation('search-entry', `search_list-dir describes ${e.path} as ${e.kind} ${e.name}`, { input });
			else if (e.kind !== 'directory' && st && (e.size !== st.size || e.mtime !== st.mtime.toISOString())) chk.violation('search-entry', `search_list-dir gives ${e.path} ${e.size} bytes of ${e.mtime}`, { input });
		}
	};
	const doRecent = async (root: string, x: any): Promise<void> => {
		const input = { path: root, ...x }, r = await run('search_recent', input, 'path', root), cut = NOW - (x.minutes ?? 60) * MIN;
		if (!r.success) { chk.violation('search-exact', `search_recent fails: ${r.error}`, { input }); return; }
		listed('search_recent', input, r.data.matches.map((m: any) => m.path), files(root, x.includeHidden === true).filter(p => mtime(root, p) >= cut), r.data.truncated, x.limit ?? 200, r.output);
		r.data.matches.forEach((m: any, i: number) => {
			const st = statSync(join(root, m.path));
			if (m.bytes !== st.size || m.mtime !== st.mtime.toISOString() || Math.abs(m.ageSec - (NOW - st.mtimeMs) / 1000) > 1) chk.violation('search-entry', `search_recent gives ${m.path} ${m.bytes} bytes of ${m.mtime}, ${m.ageSec} s ago`, { input });
			if (i > 0 && r.data.matches[i - 1].ageSec > m.ageSec) chk.violation('search-order', `search_recent lists an older file before ${m.path}`, { input });
		});
	};
	const opts = (...lists: [string, any[]][]): any[] => [...product(...lists.map(l => l[1]))].map(v => Object.fromEntries(v.flatMap((y, i) => y === undefined ? [] : [[lists[i]![0], y]])));
	const LIST = opts(['recursive', [undefined, false, true]], ['includeHidden', [undefined, true]], ['onlyKind', [undefined, 'file', 'directory', 'symlink']], ['limit', [undefined, 1, 3, 8]]);
	for (const x of LIST) await doList(all, x);
	for (const x of opts(['minutes', [undefined, 1, 2, 5, 59, 60, 61, 100, 10000]], ['includeHidden', [undefined, true]], ['limit', [undefined, 1, 2, 50]])) await doRecent(all, x);
	for (const t of subsets(small)) {
		const d = build(t);
		for (const p of ['**/a.ts', 'src/*', '**']) await doGlob(d, p, { includeHidden: p === '**' });
		await doList(d, { recursive: true }); await doList(d, {}); await doList(d, { recursive: true, includeHidden: true, limit: 2 }); await doRecent(d, { minutes: 8 });
		rmSync(d, { recursive: true, force: true });
	}
	// recent files to the second
	for (const [m, s] of product([1, 60, 90], [-1, 0, 1])) { const d = build([{ p: 'x.ts', age: m + s / 60, text: 'x' }, { p: 'sub/y.ts', age: m - s / 60, text: 'yy' }]); await doRecent(d, { minutes: m }); rmSync(d, { recursive: true, force: true }); }
	// more files than the default limits
	const many = build(Array.from({ length: 520 }, (_, i) => ({ p: `d${i % 7}/f${i}.ts`, age: i + 1, text: `alpha ${i}\n` })));
	for (const l of [undefined, 100, 520, 521, 5000, 100000]) { const x = l === undefined ? {} : { limit: l }; await doGlob(many, '**/*.ts', x); await doList(many, { recursive: true, ...x }); await doRecent(many, { minutes: 10000, ...x }); }
	// relative roots mean the same directory
	const cwd = process.cwd(); process.chdir(SCRATCH);
	for (const rel of [relative(SCRATCH, all), `./${relative(SCRATCH, all)}/`, `${relative(SCRATCH, all)}/src/..`]) { const r = await run('search_glob', { pattern: '**', cwd: rel }, 'cwd', all); if (r.data.matches.length !== files(all, false).length) chk.violation('search-exact', `search_glob below ${rel} lists ${r.data.matches.length} files`, {}); for (const t of ['search_grep', 'search_recent', 'search_list-dir']) await run(t, { path: rel, pattern: 'alpha', minutes: 5 }, 'path', all); }
	process.chdir(join(all, 'src'));
	for (const t of ['search_glob', 'search_grep', 'search_recent']) await run(t, { pattern: 'alpha' }, t === 'search_glob' ? 'cwd' : 'path', join(all, 'src'));
	process.chdir(cwd);

	// greps
	type Hit = { path: string; line: number; text: string };
	const expect = (root: string, pattern: string, x: any): Hit[] => {
		const re = new RegExp(pattern, x.caseInsensitive ? 'i' : ''), out: Hit[] = [];
		for (const p of files(root, false)) { if (x.glob !== undefined && !glob(x.glob, p.split('/').at(-1)!)) continue; readFileSync(join(root, p), 'utf8').split('\n').forEach((t, i, a) => { if ((i < a.length - 1 || t !== '') && re.test(t)) out.push({ path: p, line: i + 1, text: t.slice(0, 500) }); }); }
		return out;
	};
	const doGrep = async (root: string, pattern: string, x: any, rg: boolean): Promise<void> => {
		const input = { pattern, path: root, ...x }, r = await run('search_grep', input, 'path', root);
		const same = (h: Hit): string => `${h.path}:${h.line}: ${h.text}`;
		if (!r.success) { chk.violation('search-exact', `search_grep fails: ${r.error}`, { input }); return; }
		const limit = x.limit ?? 200, want = expect(root, pattern, x);
		if (r.data.usedRipgrep !== rg) chk.violation('search-report', `search_grep says usedRipgrep=${r.data.usedRipgrep}`, { input });
		listed(`search_grep (${rg ? 'ripgrep' : 'node'})`, input, r.data.hits.map(same), want.map(same), r.data.truncated, limit, r.output);
		const direct = await GR.runGrepSearch({ pattern, root, ...x });
		if (JSON.stringify(direct) !== JSON.stringify(r.data)) chk.violation('search-exact', 'runGrepSearch and search_grep differ', { input });
	};
	const PATS = ['alpha', '^alpha', 'alpha$', 'a|b', '[A-Z]', '\\(x\\)', 'a.c', 'a\\.c', '\\$', '^beta$', 'ünï', '(al)pha', '-e', '--files', 'x y|alpha y', '\\d+', 'nothing at all', '^\\s+alpha', 'alpha: 12:'];
	const saved = process.env['PATH'], bare = join(SCRATCH, 'bare'); mkdirSync(bare, { recursive: true });
	process.env['PATH'] = bare;
	for (const p of PATS) for (const x of opts(['caseInsensitive', [undefined, false, true]], ['glob', [undefined, '*.ts', 'a.ts', '?.js', '[ab].*', 'src', '*[[]1]*', '*+*', 'ü*']], ['limit', [undefined, 1, 2, 4]], ['multiline', [undefined, true]])) await doGrep(all, p, x, false);
	for (const l of [undefined, 199, 520, 521, 9000]) await doGrep(many, 'alpha', l === undefined ? {} : { limit: l }, false);
	for (const p of ['(', '[', '*', 'a{2,1}']) { const r = await run('search_grep', { pattern: p, path: all }, 'path', all); if (r.success) chk.violation('search-exact', `search_grep succeeds on the invalid pattern ${p}`, {}); }
	{ const big = build([{ p: 'big.ts', age: 1, text: 'alpha\n'.repeat(3) + ' '.repeat(2 * 1024 * 1024) }, { p: 'small.ts', age: 1, text: 'alpha\n' }]); const r = await run('search_grep', { pattern: 'alpha', path: big }, 'path', big); if (!r.success || r.data.hits.filter((h: Hit) => h.path === 'small.ts').length !== 1) chk.violation('search-exact', 'a large file keeps search_grep from another', {}); rmSync(big, { recursive: true, force: true }); }
	// ripgrep: a stand-in with ripgrep's options that prints what ripgrep prints
	writeFileSync(join(bare, 'rg'), `#!${process.execPath}
const fs = require('fs'), path = require('path'); const a = process.argv.slice(2); let i = 0, re, ci = false, g = [], ctx = 0, m = Infinity, pos = [], nul = false;
const val = s => s;
for (; i < a.length; i++) { const x = a[i];
 if (x === '--no-heading' || x === '--line-number' || x === '-n' || x === '-H' || x === '--with-filename' || x.startsWith('--color')) continue;
 if (x === '-0' || x === '--null') nul = true; else if (x === '-i' || x === '--ignore-case') ci = true; else if (x === '-g' || x === '--glob') g.push(a[++i]); else if (x === '-C' || x === '--context') ctx = +a[++i]; else if (x === '-m' || x === '--max-count') m = +a[++i]; else if (x === '-e' || x === '--regexp') re = a[++i]; else if (x === '--') { pos.push(...a.slice(i + 1)); break; } else if (x.startsWith('-')) { console.error('unrecognized flag ' + x); process.exit(2); } else pos.push(x); }
if (re === undefined) re = pos.shift(); if (pos.length !== 1) { console.error('roots: ' + pos.length); process.exit(2); }
let rx; try { rx = new RegExp(re, ci ? 'i' : ''); } catch { console.error('regex parse error'); process.exit(2); }
const gl = s => new RegExp('^' + s.replace(/[.+^\${}()|\\\\]/g, '\\\\$&').replace(/\\*/g, '[^/]*').replace(/\\?/g, '[^/]') + '$'); const IGN = new Set(${JSON.stringify([...IGN])}); let any = false, out = '';
(function walk(d) { for (const e of fs.readdirSync(d, { withFileTypes: true })) { if (e.name.startsWith('.') || IGN.has(e.name)) continue; const f = path.join(d, e.name); if (e.isDirectory()) { walk(f); continue; } if (!e.isFile()) continue; if (g.length && !g.some(s => gl(s).test(e.name))) continue;
 const L = fs.readFileSync(f, 'utf8').split('\\n'); if (L.at(-1) === '') L.pop(); let n = 0; const hit = new Set(); for (let k = 0; k < L.length && n < m; k++) if (rx.test(L[k])) { hit.add(k); n++; }
 let last = -2; for (let k = 0; k < L.length; k++) { let near = hit.has(k); for (const h of hit) if (Math.abs(h - k) <= ctx) near = true; if (!near) continue; if (ctx && last >= 0 && k > last + 1) out += '--\\n'; const s = hit.has(k) ? ':' : '-'; out += f + (nul ? '\\0' : s) + (k + 1) + s + L[k] + '\\n'; last = k; any = true; } } })(pos[0]);
process.stdout.write(out); process.exitCode = any ? 0 : 1;
`); chmodSync(join(bare, 'rg'), 0o755);
	const RGO = THOROUGH ? opts(['caseInsensitive', [undefined, true]], ['glob', [undefined, '*.ts', 'a.ts', '?.js']], ['limit', [undefined, 1, 3]], ['context', [undefined, 1]]) : [{}, { caseInsensitive: true }, { glob: '*.ts' }, { limit: 3 }, { context: 1, glob: 'a.ts' }, { caseInsensitive: true, glob: '?.js', limit: 1 }];
	for (const p of ['^alpha', 'alpha', '-e', '\\(x\\)', 'nothing at all', 'a|b']) for (const x of RGO) await doGrep(all, p, x, true);
	process.env['PATH'] = saved;
	Date.now = realNow;
	chk.assumptions.push('The real ripgrep is not installed here: its options and output format come from its manual, in a stand-in.', 'Globs in which ** is part of a longer segment, and files named like an ignored directory, are not asked about.');
	chk.finish();
});
