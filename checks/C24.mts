// C24: whatever a model asks for, the context builder's tool loop runs read-only tools only, and those change nothing.
import { execFileSync } from 'node:child_process';
import { createHash } from 'node:crypto';
import fs from 'node:fs';
import { homedir } from 'node:os';
import { join } from 'node:path';
import { Check, main, THOROUGH, SCRATCH, repo, product, sequences, show } from '../lib/mc.mts';

// families that write, execute, notify or reach the network, whatever a surface list says
const EFFECT = /^(shell|ssh|gh|cloud|k8s|pkg|notify|test|http|web)_|^file_(?!read$|stat$)|^git_(?!blame$|diff$|log$|show$|status$)|docgen|generate/;
const BUNDLE = { system: 's', focus: 'f', summary: '', structure: '', surface: '', artefacts: '', upstream: '' };
const W = join(SCRATCH, 'w'), R = join(W, 'repo');
let D: any, Rg: any, X: any, A: any;
type Step = { stop: string; calls: { id: string; name: string; input: any }[]; text: string } | 'throw';
interface Ran { tool: string; input: any }
/** one loop over a scripted model; what ran, what the model was told, what came out */
async function loop(script: Step[], ran: Ran[]): Promise<{ seen: any[][]; tools: Set<string>[]; res: any; err: any; events: any[]; final: any[] | null }> {
	const seen: any[][] = [], tools: Set<string>[] = [], events: any[] = []; let k = 0, final: any[] | null = null;
	const provider = { supportsTools: true, embed: async () => [], async *stream() { /* unused */ }, capabilities: {},
		complete: async (m: any[], o: any) => { seen.push(structuredClone(m)); tools.push(new Set((o?.tools ?? []).map((t: any) => t.name))); const s = script[k++] ?? { stop: 'end_turn', calls: [], text: 'done' }; if (s === 'throw') throw new Error('model broke'); return { text: s.text, toolCalls: s.calls, stopReason: s.stop }; },
		completeStructured: async (m: any[]) => { final = structuredClone(m); return BUNDLE; } };
	ran.length = 0; let res: any, err: any;
	try { res = await D.runShaperToolLoop({ runId: 'r', shaperId: 'code', invocationMode: 'classification', inputs: { prompt: 'q', scopeRef: { kind: 'repo', value: R } }, promptPath: 'prompts/analyze/code.system.md', provider, onTrace: (e: any) => { events.push(e); } }); } catch (e) { err = e; }
	return { seen, tools, res, err, events, final };
}
/** a script's outcome against the loop's contract */
function judge(script: Step[], max: number, ran: Ran[], o: Awaited<ReturnType<typeof loop>>): string | null {
	let calls = 0, k = 0, over = false, threw = false; const blocks: any[] = [];
	for (;; k++) { if (k === max) { over = true; break; } const s = script[k] ?? { stop: 'end_turn', calls: [], text: 'done' }; if (s === 'throw') { threw = true; break; } if (s.stop !== 'tool_use' || s.calls.length === 0) break; calls += s.calls.length; blocks.push(s.calls); }
	if (o.seen.length !== (over ? max : k + 1)) return `the model was asked ${o.seen.length} times instead of ${over ? max : k + 1}`;
	for (const r of ran) { if (EFFECT.test(r.tool)) return `${r.tool} was executed`; if (!o.tools.every(t => t.has(r.tool))) return `${r.tool} was executed though it was not offered`; }
	for (const t of o.tools) for (const n of t) if (EFFECT.test(n)) return `${n} was offered to the model`;
	const offered = o.tools[0]!, must = blocks.flat().filter((c: any) => offered.has(c.name)), direct = ran.filter(r => must.some((c: any) => c.name === r.tool));
	if (JSON.stringify(must.map((c: any) => [c.name, c.input])) !== JSON.stringify(direct.map(r => [r.tool, r.input])) && !blocks.flat().some((c: any) => c.name === 'Read')) return `asked for ${show(must.map((c: any) => c.name))}, ran ${show(direct.map(r => r.tool))}`;
	// every call is answered once, in order, under its own id, in the turn after it
	const convo = o.final ?? o.seen.at(-1)!, results = convo.filter((m: any) => m.role === 'user' && Array.isArray(m.content)).map((m: any) => m.content);
	const answered = over || threw ? blocks.slice(0, results.length) : blocks;
	if (results.length !== answered.length || (!(over || threw) && results.length !== blocks.length)) return `${results.length} answers to ${blocks.length} requests`;
	for (const [i, b] of answered.entries()) {
		const r = results[i]; if (r.length !== b.length) return `${b.length} calls got ${r.length} answers`;
		for (const [j, c] of b.entries()) { const a = r[j]; if (a.type !== 'tool_result' || a.tool_use_id !== c.id || typeof a.content !== 'string') return `call ${c.id} is answered by ${show(a)}`; const good = offered.has(c.name); if (good ? a.isError === true || a.content !== `ran ${c.name}` : c.name !== 'Read' && a.isError !== true) return `the answer to ${c.name} is ${show(a)}`; }
		const at = convo.findIndex((m: any) => m.content === r), use = convo[at - 1]; if (use?.role !== 'assistant' || JSON.stringify((use.content as any[]).filter(x => x.type === 'tool_use').map(x => [x.id, x.name, x.input])) !== JSON.stringify(b.map((c: any) => [c.id, c.name, c.input]))) return 'the answers do not follow their calls';
	}
	if (threw || over) { if (!o.err) return `${threw ? 'a failing model' : `more than ${max} turns`} went unreported`; return o.final ? 'a bundle was still asked for' : null; }
	if (o.err) return `failed: ${o.err.message}`;
	if (o.res.toolCallCount !== calls) return `reports ${o.res.toolCallCount} tool calls instead of ${calls}`;
	if (JSON.stringify(o.res.rawBundle) !== JSON.stringify(BUNDLE)) return `returned ${show(o.res.rawBundle)}`;
	const ev = o.events.filter(e => e.type === 'tool-call' || e.type === 'tool-response').map(e => [e.type, e.tool]), want = blocks.flat().flatMap((c: any) => [['tool-call', c.name], ['tool-response', c.name]]);
	return JSON.stringify(ev) === JSON.stringify(want) ? null : `the trace shows ${show(ev)}`;
}
const git = (...a: string[]): string => execFileSync('git', a, { cwd: R, encoding: 'utf8', env: { ...process.env, GIT_AUTHOR_DATE: '2024-01-01T00:00:00Z', GIT_COMMITTER_DATE: '2024-01-01T00:00:00Z' } });
function fixture(): void {
	fs.rmSync(W, { recursive: true, force: true }); fs.mkdirSync(join(R, 'src'), { recursive: true });
	git('init', '-q', '-b', 'main'); git('config', 'user.email', 'a@b'); git('config', 'user.name', 'n');
	fs.writeFileSync(join(W, 'secret.csv'), 'k,v\ns3cr3t,1\n'); fs.writeFileSync(join(R, 'a.txt'), 'one\ntwo\n'); fs.writeFileSync(join(R, 'src/b.ts'), 'export const b = 1;\n'); fs.writeFileSync(join(R, 't.csv'), 'id,v\n1,2\n2,3\n'); git('add', '.'); git('commit', '-qm', 'first');
	fs.writeFileSync(join(R, 'a.txt'), 'one\n2\n'); git('commit', '-qam', 'second'); git('tag', 'v1'); fs.writeFileSync(join(R, 'a.txt'), 'one\n2\nx\n'); fs.writeFileSync(join(R, 'src/c.ts'), 'x'); git('add', 'src/c.ts');
}
const snapshot = (): string => { const h = createHash('sha256'); const walk = (d: string): void => { for (const e of fs.readdirSync(d, { withFileTypes: true }).sort((a, b) => (a.name < b.name ? -1 : 1))) { const p = join(d, e.name); if (e.isDirectory()) { h.update(`D${p}`); walk(p); } else if (!(p === join(R, '.git/index')) && !p.startsWith(join(homedir(), '.insrc', 'graph'))) h.update(`F${p}${fs.lstatSync(p).mode}`).update(e.isSymbolicLink() ? fs.readlinkSync(p) : fs.readFileSync(p)); } }; walk(W); return h.digest('hex'); };
const listing = (): string[] => { const o: string[] = []; const walk = (d: string): void => { for (const e of fs.readdirSync(d, { withFileTypes: true })) { const p = join(d, e.name); if (e.isDirectory()) { if (e.name !== '.git') walk(p); } else o.push(p.slice(W.length + 1)); } }; walk(W); return o.sort(); };
main(async () => {
	const chk = new Check('C24', 'exhaustive');
	[D, Rg, X, A] = await Promise.all(['src/analyze/context/driver.ts', 'src/daemon/tools/registry.ts', 'src/daemon/tools/executor.ts', 'src/config/analyze.ts'].map(f => repo(f)));
	const B = await repo('src/daemon/tools/builtins/index.ts'); B.registerBuiltinTools(); (await repo('src/daemon/db/drivers/index.ts')).registerBuiltinDataDrivers();
	chk.rule = 'the real tool loop runs with a scripted model over every script in the bound, recording which tools execute and comparing every answer with the contract; every offered tool then really runs on a scratch repository and databases with hostile values, which must stay unchanged';
	chk.extra['bounds'] = 'every registered tool, alias and 20 unknown names, alone and mixed with an offered one; all scripts of up to 3 (4) turns over 11 turn shapes with turn limits 1 to 3; every string and array parameter (and every pair for the git and search tools) of every offered tool x 38 hostile values';
	fixture();
	Rg.registerToolAlias('shell_exec', 'Bash'); Rg.registerToolAlias('file_read', 'Read'); Rg.registerToolAlias('file_write', 'Write'); Rg.registerToolAlias('git_commit', 'Commit');
	const all: any[] = Rg.listTools(), names = all.map(t => t.id), ran: Ran[] = [], real = new Map(all.map(t => [t.id, t.execute]));
	const record = (): void => { for (const t of all) t.execute = async (input: any) => { ran.push({ tool: t.id, input }); return { output: `ran ${t.id}`, format: 'text', success: true }; }; };
	const setMax = (n: number | null): void => { fs.writeFileSync(join(homedir(), '.insrc', 'config.json'), JSON.stringify(n === null ? { logLevel: 'fatal' } : { logLevel: 'fatal', models: { shaper: { maxToolTurns: n } } })); A._resetAnalyzeConfigCacheForTests(); };
	await chk.sharded(async mine => {
		let i = 0; const fail = (k: string, what: string, h: any): void => { chk.violation(k.slice(0, 300), what, h); };
		record();
		const run = async (script: Step[], max: number): Promise<boolean> => { chk.states++; chk.evaluations++; chk.traces++; const o = await loop(script, ran), bad = judge(script, max, ran, o); if (ran.length) chk.nontrivial++; if (bad) { fail(JSON.stringify(script), `a model that asks for ${script.map(s => (s === 'throw' ? s : `[${s.calls.map(c => c.name).join(', ')}]`)).join(' then ')}: ${bad}`, { script, maxToolTurns: max }); return false; } return true; };
		// ---- every name a model can write
		const odd = ['', ' ', 'nope', 'file:write', 'file.write', 'FILE_WRITE', ' file_write', 'file_write ', 'shell_exec\n', '__proto__', 'constructor', 'toString', 'hasOwnProperty', 'git_log;git_push', 'graph_query2', 'Bash', 'Write', 'Read', 'Commit', 'graph_entity\0'];
		const ask = (name: string, n = 0): any => ({ id: `c${n}`, name, input: { path: join(R, 'new'), content: 'x', command: 'true', n } });
		for (const name of [...names, ...Rg.getAliases().keys(), ...odd]) for (const shape of [0, 1, 2, 3]) {
			if (!mine(i++)) continue; const c = ask(name), r = ask('file_stat', 1);
			if (!await run(([[{ stop: 'tool_use', calls: [c], text: '' }], [{ stop: 'tool_use', calls: [r, c], text: 't' }], [{ stop: 'tool_use', calls: [r], text: '' }, { stop: 'tool_use', calls: [c, r], text: '' }], [{ stop: 'end_turn', calls: [c], text: 'no' }]] as Step[][])[shape]!, 40)) return;
		}
		// ---- the protocol
		let id = 0; const C = (name: string): any => ({ id: `x${id++}`, name, input: { path: 'p', q: id } });
		const shapes: (() => Step)[] = [() => ({ stop: 'tool_use', calls: [C('graph_query')], text: '' }), () => ({ stop: 'tool_use', calls: [C('file_stat'), C('graph_query')], text: 'hm' }), () => ({ stop: 'tool_use', calls: [C('file_delete')], text: '' }), () => ({ stop: 'tool_use', calls: [C('git_log'), C('shell_exec'), C('git_log')], text: '' }), () => ({ stop: 'tool_use', calls: [C('nope')], text: '' }), () => ({ stop: 'tool_use', calls: [], text: 'odd' }), () => ({ stop: 'end_turn', calls: [], text: 'bye' }), () => ({ stop: 'end_turn', calls: [C('git_push')], text: '' }), () => ({ stop: 'max_tokens', calls: [C('git_log')], text: 'cut' }), () => ({ stop: 'max_tokens', calls: [], text: '' }), () => 'throw'];
		for (const max of [1, 2, 3]) { setMax(max); for (let len = 1; len <= (THOROUGH ? 4 : 3); len++) for (const seq of sequences(shapes.length, len)) { if (!mine(i++)) continue; const script = seq.map(k => shapes[k]!()); if (!await run(script, max)) return; if (i % 401 === 0) chk.sample({ max, script: script.map((s: any) => s.calls?.map((c: any) => c.name) ?? s) }); } }
		setMax(null);
		// ---- what the offered tools do
		for (const t of all) t.execute = real.get(t.id);
		const offered = [...(await loop([], ran)).tools[0]!];
		const BD = (await import('node:module')).createRequire(join(process.cwd(), 'package.json'))('better-sqlite3'), db = new BD(join(R, 'd.sqlite')); db.exec('create table t(id integer primary key, v real, s text, ts text); insert into t(v,s,ts) values (1,\'a\',\'2024-01-01\'),(2,\'b\',\'2024-01-02\'),(3,null,\'2024-01-04\'); create view w as select * from t; create table "drop"(x int)'); db.close();
		const cfg = await repo('src/daemon/db/config.ts'); await cfg.saveConnections(R, { connections: [{ id: 'sq', kind: 'sqlite', path: join(R, 'd.sqlite') }, { id: 'csv', kind: 'csv', path: join(R, 't.csv') }] });
		const deps = { sessionId: 's', repoPath: R, closureRepos: [R], send: () => { }, requestId: 1 }; process.chdir(R);
		const P = join(W, 'pwned'), hostile: any[] = [`--output=${P}`, `--output ${P}`, '-o', `-O${P}`, `-Otouch ${P}`, `--open-files-in-pager=touch ${P}`, `--exec=touch ${P}`, `--upload-pack=touch ${P}`, `--pre=touch ${P}`, '--ext-diff', '--textconv', '--no-index', `;touch ${P}`, `$(touch ${P})`, `\`touch ${P}\``, `| touch ${P}`, `&& touch ${P}`, `a\ntouch ${P}`, `HEAD --output=${P}`, `:!touch ${P}`, '@{-1}', `-L1,1:/x`, `--contents=${P}`, `t; drop table t`, `t" ; drop table t; --`, `t where 1=1; delete from t`, `'; insert into t values(9,9,9,9); --`, `v) from t; update t set v=0; --`, `t; attach '${P}' as x`, `COPY t TO '${P}'`, `t.csv'; COPY (select 1) TO '${P}`, `../secret.csv`, join(W, 'secret.csv'), `t.csv' UNION ALL SELECT * FROM '${join(W, 'secret.csv')}`, `v FROM '${join(W, 'secret.csv')}' --`, '', `main.t`];
		const valid = (tool: string, k: string, s: any): any => { const m: any = { connectionId: tool.startsWith('db_file') || tool.startsWith('data_') ? 'csv' : 'sq', target: 't', column: 'v', cwd: R, path: tool.startsWith('search') ? R : join(R, 'a.txt'), pattern: 'o', className: 'A', repoPath: R, orm: 'prisma', tool: 'rails', query: 'q', op: s.enum?.[0], entityId: 'e', id: 'e', family: 'rfc', ref: 'HEAD', from: 'HEAD~1', to: 'HEAD', columns: ['v', 'id'], timeColumn: 'ts', valueColumn: 'v', limit: 5 }; if (tool === 'git_blame' && k === 'path') return 'a.txt'; if (k in m && m[k] !== undefined) return m[k]; if (s.enum) return s.enum[0]; return s.type === 'number' || s.type === 'integer' ? (s.minimum ?? 1) : s.type === 'array' ? [valid(tool, k.replace(/s$/, ''), s.items ?? {})] : s.type === 'object' ? Object.fromEntries((s.required ?? []).map((r: string) => [r, valid(tool, r, s.properties?.[r] ?? {})])) : s.type === 'boolean' ? true : 'v'; };
		const base = snapshot(), index = git('ls-files', '-s'), refs = git('for-each-ref'); let okCalls = 0;
		for (const t of offered) {
			const tool = Rg.getTool(t), props: Record<string, any> = tool.inputSchema?.properties ?? {}, req: string[] = tool.inputSchema?.required ?? [];
			const start: any = {}; for (const r of req) start[r] = valid(t, r, props[r] ?? {}); if (/^git_/.test(t)) start.cwd = R;
			const settable = Object.entries(props).filter(([, s]) => s.type !== 'boolean' && s.type !== 'number' && s.type !== 'integer').map(([k]) => k);
			const sets: any[] = [{}];
			const poison = (s: any, v: any, d = 0): any[] => d > 3 ? [] : s.type === 'array' ? [[v], ...poison(s.items ?? {}, v, d + 1).map(x => [x])] : s.type === 'object' ? Object.keys(s.properties ?? {}).flatMap(k => poison(s.properties[k], v, d + 1).map(x => ({ ...Object.fromEntries((s.required ?? []).map((r: string) => [r, valid(t, r, s.properties?.[r] ?? {})])), [k]: x }))) : [v];
			for (const k of settable) for (const v of hostile) for (const x of poison(props[k], v)) sets.push({ [k]: x });
			if (/^(git|search)_/.test(t)) for (const [k1, k2] of product<string>(settable, settable)) if (k1 < k2) for (const v1 of hostile) for (const v2 of THOROUGH ? hostile : [v1, `--output=${P}`]) sets.push({ [k1]: v1, [k2]: v2 });
			for (const s of sets) {
				if (!mine(i++)) continue; chk.evaluations++; const input = { ...start, ...s };
				const r = await X.executeTool(t, input, deps); if (r.success) okCalls++;
				if (t.startsWith('db_') && JSON.stringify(r).includes('s3cr3t')) { fail(`leak ${t} ${JSON.stringify(s)}`, `${t} with ${JSON.stringify(s)} reads a file outside the repository`, { tool: t, input }); return; }
				if (typeof r.success !== 'boolean' && r.success !== undefined) { fail(`shape ${t}`, `${t} returned ${show(r)}`, input); return; }
				if (fs.existsSync(P) || fs.existsSync('/pwned') || snapshot() !== base) { const now = listing(); fail(`${t} ${JSON.stringify(s)}`, `${t} with ${JSON.stringify(s)} changed the workspace: ${now.join(' ')}`.replaceAll(SCRATCH, ''), { tool: t, input }); return; }
			}
		}
		if (git('ls-files', '-s') !== index || git('for-each-ref') !== refs) fail('index', 'the index or the refs of the repository changed', {});
		if (okCalls === 0) fail('vacuous', 'no offered tool ever succeeded', {});
	});
	chk.finish();
});
