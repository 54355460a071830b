// C22: every reasoning role gets the model its configuration names, critical roles never one below the floor, and run contexts do not leak.
import { EventEmitter } from 'node:events';
import { writeFileSync, rmSync } from 'node:fs';
import { createServer } from 'node:http';
import { homedir } from 'node:os';
import { join } from 'node:path';
import { Check, main, THOROUGH, SHARD, repo, product, show } from '../lib/mc.mts';

type Tier = 'core' | 'mid' | 'cheap'; interface TM { runner: string; model: string }
const RANK: Record<string, number> = { cheap: 0, mid: 1, core: 2 }, TIERS: Tier[] = ['core', 'mid', 'cheap'], NONE = Symbol('none');
const CONFIG = join(homedir(), '.insrc', 'config.json');
let A: any, RR: any, SP: any, G: any, T: any, LP: any, DEF: Record<string, TM>;
const obj = (v: any): boolean => typeof v === 'object' && v !== null && !Array.isArray(v);
const validTier = (v: any): boolean => obj(v) && ['ollama', 'cli-claude', 'cli-codex'].includes(v.runner) && typeof v.model === 'string' && v.model !== '';
const isTier = (v: any): v is Tier => typeof v === 'string' && (TIERS as string[]).includes(v);
const own = (o: any, k: string): any => obj(o) && Object.hasOwn(o, k) ? o[k] : undefined;
/** what a configuration says about one role, from the raw document */
function spec(models: any, role: string, repoPath: string | undefined): { tier: Tier; runner: string; model: string; clamped: boolean } {
	const d = T.reasoningRoleTaxonomy().roles.find((r: any) => r.id === role), rep = repoPath === undefined ? undefined : own(own(models, 'byRepo'), repoPath);
	const pick = (f: (src: any) => any): any => [rep, models].filter(obj).map(f).find(v => v !== undefined);
	const assigned = pick(s => { const t = own(s.tasks, role); return isTier(t) ? t : undefined; }) ?? d?.defaultTier ?? 'mid';
	let tier: Tier = assigned;
	if (d && d.criticality === 'critical') { const floor: Tier = pick(s => isTier(s.coreFloor) ? s.coreFloor : undefined) ?? 'mid'; if (RANK[floor]! > RANK[tier]!) tier = floor; }
	const m: TM = pick(s => { const t = own(s.tiers, tier); return validTier(t) ? t : undefined; }) ?? DEF[tier]!;
	return { tier, runner: m.runner, model: m.model, clamped: tier !== assigned };
}
function load(doc: any): any { if (doc === null) rmSync(CONFIG, { force: true }); else writeFileSync(CONFIG, typeof doc === 'string' ? doc : JSON.stringify(doc)); A._resetAnalyzeConfigCacheForTests(); LP._resetLocalProviderConfigCacheForTests(); return A.loadAnalyzeConfig(); }
function tierSets(tag: string): any[] {
	const per = [NONE, 'ok', 'bad'];
	return product<any>(per, per, per).map((c, n) => {
		const o: any = {}; if (n % 2) o.premium = { runner: 'ollama', model: 'x' };
		c.forEach((k: any, i: number) => { if (k === 'ok') o[TIERS[i]!] = { runner: ['cli-codex', 'ollama', 'cli-claude'][(i + n) % 3], model: `${tag}-${TIERS[i]}` }; else if (k === 'bad') o[TIERS[i]!] = [{ runner: 'openai', model: 'gpt' }, { runner: 'ollama', model: 5 }, 'mid', null, { model: 'm' }][(i + n) % 5]; });
		return o;
	});
}
const VALS = [NONE, 'core', 'mid', 'cheap', 'high', 3];
function scope(tiers: any, task: any, taskP: any, floor: any, crit: string, per: string): any { const o: any = {}; if (Object.keys(tiers).length) o.tiers = tiers; const t: any = {}; if (task !== NONE) t[crit] = task; if (taskP !== NONE) t[per] = taskP; if (Object.keys(t).length) o.tasks = t; if (floor !== NONE) o.coreFloor = floor; return o; }
const diff = (got: any, w: any): string | null => got.tier !== w.tier || got.runner !== w.runner || got.model !== w.model || got.clampedByFloor !== w.clamped ? `${show(got)}, the configuration says ${show(w)}` : null;

// ------------------------------------------------------------------ what a provider really calls
interface Call { runner: string; model: string | undefined } let calls: Call[] = [];
function fakeSpawn(cmd: string, args: string[]): any {
	const c: any = new EventEmitter(); c.stdout = new EventEmitter(); c.stderr = new EventEmitter(); c.kill = () => { }; c.stdin = Object.assign(new EventEmitter(), { write: () => true, end: () => { } });
	const at = args.findIndex(a => a === '--model' || a === '-m'), bin = cmd.split('/').at(-1)!; calls.push({ runner: `cli-${bin}`, model: at < 0 ? undefined : args[at + 1] });
	setImmediate(() => { c.stdout.emit('data', Buffer.from(bin === 'claude' ? JSON.stringify({ type: 'result', is_error: false, result: 'ok', structured_output: {} }) : `${JSON.stringify({ type: 'item.completed', item: { type: 'agent_message', text: 'ok' } })}\n`)); c.emit('exit', 0); c.emit('close', 0); });
	return c;
}
async function whom(p: any): Promise<Call> { calls = []; const r = await p.complete([{ role: 'user', content: 'hi' }]); if (calls.length !== 1) throw new Error(`one question led to ${calls.length} calls`); if (r.text !== 'ok') throw new Error(`the answer was ${show(r.text)}`); return calls[0]!; }
/** the model the backend must be asked for */
const asked = (runner: string, model: string | undefined): string => runner === 'ollama' ? `ollama ${model}` : `${runner} ${model === undefined || model === '' || model.includes(':') ? undefined : model}`;
const said = (c: Call): string => `${c.runner} ${c.model}`;

main(async () => {
	const chk = new Check('C22', 'exhaustive');
	[A, RR, SP, G, T, LP] = await Promise.all(['src/config/analyze.ts', 'src/analyze/context/role-router.ts', 'src/analyze/context/shaper-provider.ts', 'src/config/core-floor-guard.ts', 'src/config/role-taxonomy.ts', 'src/config/local.ts'].map(f => repo(f)));
	DEF = structuredClone(A.DEFAULT_TIERS);
	chk.rule = 'every configuration in the bound is loaded from disk and every role and repository resolved and compared with a reading of the raw document; built providers are asked a question and the process or server they reach is recorded';
	chk.extra['bounds'] = '27 tier tables x 6 tasks of a critical role x 6 of a peripheral one x 6 floors, crossed with per-repository scopes of the same kinds; all roles x 256 assignments; 500 tier tables on built providers; 448 signal combinations; every interleaving of three runs with two suspension points over 50 context mixes';
	(globalThis as any).__mcSpawn = fakeSpawn; (globalThis as any).__mcExecFileSync = (_c: string, a: string[]) => `/fake/bin/${a[0]}\n`;
	const server = createServer((q, s) => { let b = ''; q.on('data', d => { b += d; }); q.on('end', () => { const j = b ? JSON.parse(b) : {}; calls.push({ runner: 'ollama', model: j.model }); s.setHeader('content-type', 'application/x-ndjson'); s.end(`${JSON.stringify({ model: j.model, created_at: '2026-01-01T00:00:00Z', message: { role: 'assistant', content: 'ok' }, done: true, done_reason: 'stop' })}\n`); }); });
	await new Promise<void>(r => server.listen(0, '127.0.0.1', () => r())); const host = `http://127.0.0.1:${(server.address() as any).port}`;
	const roles: any[] = T.reasoningRoleTaxonomy().roles, crit = roles.filter(r => r.criticality === 'critical'), per = roles.filter(r => r.criticality === 'peripheral');
	await chk.sharded(async mine => {
		let i = 0; const fail = (k: string, what: string, doc: any): void => { chk.violation(k, what, { config: doc }); };
		// ---- resolution, exhaustively
		const G27 = tierSets('g'), R27 = tierSets('r'), repos: [string, any][] = [];
		R27.forEach((t, n) => { for (const [a, f] of product<any>(THOROUGH ? VALS : VALS.slice(0, 5), VALS.slice(0, 5))) if (THOROUGH || repos.length % 5 !== 4 || n % 3 === 0) repos.push([`/repo.${repos.length}/x`, [t, a, VALS[(repos.length * 7) % 6], f]]); });
		const sel = THOROUGH ? repos : repos.filter((_, n) => n % 4 === 0 || n < 25);
		for (const [tiers, a, p, f] of product<any>(G27, VALS, VALS, VALS)) {
			if (!mine(i++)) continue;
			const c = crit[i % crit.length]!.id, q = per[(i * 5) % per.length]!.id;
			const models: any = { ...scope(tiers, a, p, f, c, q), byRepo: Object.fromEntries(sel.map(([k, [t, x, y, z]]) => [k, scope(t, x, y, z, c, q)])) };
			models.byRepo['/broken'] = 5; const doc = { models, other: 1 }; const cfg = load(doc); chk.states++;
			const core = validTier(own(models.tiers, 'core')) ? models.tiers.core : DEF['core'], cheap = validTier(own(models.tiers, 'cheap')) ? models.tiers.cheap : DEF['cheap'];
			if (cfg.shaperProvider !== core.runner || cfg.shaperModel !== core.model || cfg.summariserProvider !== cheap.runner || cfg.summariserModel !== cheap.model || cfg.shaperProviderExplicit !== validTier(own(models.tiers, 'core'))) { fail(`derived ${show(models.tiers)}`, `tiers ${show(models.tiers)} give shaper ${cfg.shaperProvider}/${cfg.shaperModel} and summariser ${cfg.summariserProvider}/${cfg.summariserModel}`, models.tiers); return; }
			for (const repoPath of [undefined, '/broken', '/unlisted', ...sel.map(r => r[0])]) for (const role of [c, q, 'no.such.role']) {
				chk.evaluations++; const w = spec(models, role, repoPath); let got: any; try { got = RR.resolveRole(role, cfg, repoPath, [{}, { clientDefault: 'cli-codex' }, { repoOverride: 'ollama' }][i % 3]); } catch (e) { got = { error: (e as Error).message }; }
				if (w.clamped) chk.nontrivial++;
				const bad = diff(got, w); if (bad) { const scopeOf = { ...scope(tiers, a, p, f, c, q), repo: models.byRepo[repoPath ?? ''] }; fail(`resolve ${role} ${show(scopeOf)}`, `role ${role} in ${repoPath} under ${show(scopeOf)} resolves to ${bad}`, scopeOf); return; }
			}
		}
		// ---- every role
		for (const [task, floor, rt, rf] of product<any>(VALS.slice(0, 4), VALS.slice(0, 4), VALS.slice(0, 4), VALS.slice(0, 4))) {
			if (!mine(i++)) continue;
			const tasks = (v: any): any => v === NONE ? {} : Object.fromEntries(roles.map(r => [r.id, v])); const models: any = { tasks: tasks(task), byRepo: { '/r': { tasks: tasks(rt) } } }; if (floor !== NONE) models.coreFloor = floor; if (rf !== NONE) models.byRepo['/r'].coreFloor = rf;
			const cfg = load({ models }); const router = RR.createRoleRouter({});
			for (const r of roles) for (const rp of ['/r', undefined, '/s', '/r']) { chk.evaluations++; const w = spec(models, r.id, rp), got = rp === '/s' ? router.resolveProviderForRole(r.id, cfg, rp).resolution : RR.resolveRole(r.id, cfg, rp); const bad = diff(got, w) ?? (got.role !== r.id ? `for role ${got.role}` : null); if (bad) { fail(`all roles ${r.id} ${String(task)} ${String(floor)} ${String(rt)} ${String(rf)}`, `role ${r.id} in ${rp} (task ${String(task)}, floor ${String(floor)}, repository task ${String(rt)}, floor ${String(rf)}) resolves to ${bad}`, models); return; }
				if (r.criticality === 'critical') { const fl = (rp === '/r' && rf !== NONE ? rf : floor !== NONE ? floor : 'mid') as Tier; if (RANK[got.tier]! < RANK[fl]!) { fail(`floor ${r.id}`, `critical role ${r.id} resolves to ${got.tier} below ${fl}`, models); return; } } }
		}
		// ---- the guard alone, incl. values outside the union
		if (mine(i++)) for (const cr of ['critical', 'peripheral', 'unknown', undefined]) for (const t of [...TIERS, 'high', '', undefined]) for (const f of [...TIERS, 'high', '', undefined, NONE]) {
			chk.evaluations++; let got: any; try { got = G.applyCoreFloor({ role: { id: 'x', criticality: cr, defaultTier: 'mid' }, resolvedTier: t, ...(f === NONE ? {} : { configuredFloor: f }) }); } catch (e) { got = (e as Error).name; }
			const badT = !isTier(t), floored = cr !== 'peripheral', badF = floored && f !== NONE && f !== undefined && !isTier(f), fl = (f === NONE || f === undefined ? 'mid' : f) as Tier;
			const want = badT || badF ? 'InvalidTierError' : floored && RANK[t as Tier]! < RANK[fl]! ? `${fl} true` : `${t} false`; const g = typeof got === 'string' ? got : `${got.effectiveTier} ${got.clamped}`;
			if (g !== want) { fail(`guard ${cr} ${t} ${String(f)}`, `a ${cr} role at tier ${t} with floor ${String(f)}: ${g}, expected ${want}`, {}); return; }
		}
		// ---- malformed documents never break loading
		if (mine(i++)) for (const text of [null, '', '{', 'null', '[]', '7', '"x"', '{}', '{"models":null}', '{"models":[]}', '{"models":{"tiers":[],"tasks":[],"byRepo":[]}}', '{"models":{"tiers":null,"tasks":null,"coreFloor":null,"byRepo":{"/r":null}}}', '{"models":{"shaper":5,"maxPlanDepth":"x"}}', '{"models":{"shaper":{"maxToolTurns":"5","ollamaNumCtx":null},"maxPlanDepth":{"XS":"1","S":9}}}']) {
			chk.evaluations++; let cfg: any; try { cfg = load(text); } catch (e) { fail(`load ${text}`, `loading ${show(text)} threw ${(e as Error).message}`, text); return; }
			for (const role of [crit[0].id, per[0].id]) for (const rp of [undefined, '/r']) { const bad = diff(RR.resolveRole(role, cfg, rp), spec({}, role, rp)); if (bad) { fail(`malformed ${text}`, `with config ${show(text)}, ${role} resolves to ${bad}`, text); return; } }
			const d = cfg.maxPlanDepth, wd = { XS: 2, S: text?.includes('"S":9') ? 9 : 3, M: 4, L: 5, XL: 6 }; if (JSON.stringify(d) !== JSON.stringify(wd) || cfg.shaper.maxToolTurns !== 40 || cfg.shaper.structuredOutputRetries !== 3 || cfg.shaper.ollamaNumCtx !== 32768 || cfg.shaper.ollamaNumPredict !== 20480) { fail(`knobs ${text}`, `config ${show(text)} gives knobs ${show(cfg.shaper)} ${show(d)}`, text); return; }
		}
		// ---- signal precedence
		const K = [undefined, 'ollama', 'cli-claude', 'cli-codex'];
		if (mine(i++)) for (const [role, rep, glo, cli] of product<any>([...K, 'openai', 'cli-claud', ''], K, K, K)) { chk.evaluations++; const got = SP.resolveShaperKind({ repoOverride: rep, globalExplicit: glo, clientDefault: cli, roleResolved: role }), want = (K.includes(role) ? role : undefined) ?? rep ?? glo ?? cli ?? 'ollama'; if (got !== want) { fail(`kind ${role} ${rep} ${glo} ${cli}`, `role ${role}, repository ${rep}, config ${glo}, client ${cli} gives ${got}, expected ${want}`, {}); return; } }
		// ---- what built providers reach
		const models4: [string, string][] = [['cli-claude', 'opus'], ['cli-codex', 'gpt-x'], ['ollama', 'q:1'], ['cli-claude', 'wrong:7b']];
		for (const [core, mid, cheap, rcore] of product<any>([null, ...models4], [null, ...models4], [null, ...models4], [null, ...models4.slice(0, 3)])) {
			if (!mine(i++)) continue;
			const tiers = (l: [string, any][]): any => Object.fromEntries(l.filter(x => x[1]).map(([k, [runner, model]]) => [k, { runner, model: `${k}.${model}` }]));
			const models: any = { tiers: tiers([['core', core], ['mid', mid], ['cheap', cheap]]), local: { host }, byRepo: { '/r': { tiers: tiers([['core', rcore ? [rcore[0], `rep.${rcore[1]}`] : null]]) } } };
			const cfg = load({ models }); const rk = rcore?.[0]; if (A.resolveRepoShaperProvider('/r') !== rk || A.resolveRepoShaperModel('/r') !== (rcore ? models.byRepo['/r'].tiers.core.model : undefined) || A.resolveRepoShaperProvider('/other') !== undefined) { fail(`repo override ${show(models)}`, `the pinned backend of /r reads ${A.resolveRepoShaperProvider('/r')}/${A.resolveRepoShaperModel('/r')}`, models); return; }
			const deps = [{}, { clientDefault: 'cli-codex' }, { repoOverride: rk }][i % 3]; const router = RR.createRoleRouter(deps);
			for (const role of ['review', 'analyze.plan', 'analyze.classify']) for (const rp of [undefined, '/r']) {
				chk.evaluations++; chk.nontrivial++; const w = spec(models, role, rp), p = router.resolveProviderForRole(role, cfg, rp); const bad0 = diff(p.resolution, w); if (bad0) { fail(`built ${role} ${show(models)}`, `${role} in ${rp} resolves to ${bad0}`, models); return; }
				if (router.resolveProviderForRole(role, cfg, rp).provider !== p.provider) { fail('memo', `asking twice for ${role} in ${rp} builds two providers`, models); return; }
				// a tier model that is an Ollama id on a CLI runner degrades to the CLI's own default
				const c = said(await whom(p.provider)); if (c !== asked(w.runner, w.model)) { fail(`reach ${role} ${show(models)}`, `${role} in ${rp} under ${show(models.tiers)} asks ${c}, expected ${asked(w.runner, w.model)}`, models); return; }
				const viaCtx = await SP.runWithClientProviderContext('cli-codex', () => SP.runWithRoutingContext({ router: RR.createRoleRouter(deps), repoPath: rp }, async () => whom(SP.resolveRoleProvider(role, cfg)))); if (said(viaCtx) !== c) { fail(`seam ${role}`, `${role} reached through a run context asks ${said(viaCtx)}, directly ${c}`, models); return; }
			}
			const sw = cheap ? models.tiers.cheap : DEF['cheap'], cfgSum = SP.buildSummariserProvider(cfg); let sumCall: string; { const f = async (): Promise<string> => said(await whom(SP.buildSummariserProvider(cfg))); sumCall = said(await whom(cfgSum)); for (const g of [() => SP.runWithClientProviderContext('cli-claude', f), () => SP.runWithSamplerContext(async () => { throw new Error('sampled'); }, [], f)]) { let x: string; try { x = await g(); } catch (e) { x = (e as Error).message; } if (x !== sumCall) { fail('summariser context', `the background summariser changes from ${sumCall} to ${x} inside a run context`, models); return; } } }
			if (sumCall.split(' ')[0] !== sw.runner || (!sw.model.includes(':') && sumCall !== asked(sw.runner, sw.model)) || said(await whom(router.resolveSummariser(cfg).provider)) !== sumCall) { fail(`summariser ${show(models.tiers)}`, `the summariser asks ${sumCall} for ${show(sw)}`, models); return; }
			// without a router: the interactive provider
			for (const [rep, cli, ctxCli, role] of product<any>([undefined, 'ollama', 'cli-codex'], [undefined, 'cli-claude', 'cli-codex'], [undefined, 'cli-codex'], [undefined, ['ollama', 'z:2'], ['cli-codex', 'z'], ['cli-claude', 'z:2']])) {
				if ((i + (rep ? 1 : 0) + (cli ? 2 : 0)) % 3 && !THOROUGH) continue; chk.evaluations++;
				const run = async (): Promise<Call> => whom(SP.buildShaperProvider(cfg, { repoOverride: rep, clientDefault: cli, ...(role ? { roleRunner: role[0], roleModel: role[1] } : {}) }));
				const got = await (ctxCli ? SP.runWithClientProviderContext(ctxCli, run) : run()); const kind = role?.[0] ?? rep ?? (core ? core[0] : undefined) ?? cli ?? ctxCli ?? 'ollama';
				if (got.runner !== kind || (kind !== 'ollama' && got.model?.includes(':')) || (role && said(got) !== asked(kind, role[1]))) { fail(`interactive ${rep} ${cli} ${ctxCli} ${show(role)}`, `repository ${rep}, client ${cli}/${ctxCli}, role ${show(role)}, core ${show(core)} asks ${said(got)}`, models); return; }
			}
		}
		// ---- run contexts are per run: all interleavings of concurrent flows
		if (mine(i++)) {
			const cfg = load({ models: { local: { host }, byRepo: { '/a': { tiers: { mid: { runner: 'cli-codex', model: 'am' } } }, '/b': { tiers: { mid: { runner: 'cli-claude', model: 'bm' } } } } } });
			const nflows = THOROUGH ? 3 : 3, steps = 2; const seqs: number[][] = []; const gen = (left: number[], acc: number[]): void => { if (left.every(x => !x)) { seqs.push(acc); return; } left.forEach((l, k) => { if (l) { const n = [...left]; n[k] = l - 1; gen(n, [...acc, k]); } }); }; gen(Array(nflows).fill(steps + 1), []);
			for (const kinds of product<string>(['route', 'sampler', 'client', 'none', 'nested'], ['route', 'sampler', 'client', 'none', 'nested'], ['route', 'none'])) for (const sq of seqs) {
				chk.traces++; const out: string[][] = kinds.map(() => []), gates: (() => void)[] = [], done: Promise<any>[] = [];
				for (let k = 0; k < nflows; k++) {
					const repoP = ['/a', '/b', '/a'][k]!, router = RR.createRoleRouter({}); const probe = (): string => { const c = SP.currentRoutingContext(), s = SP.currentSamplerContext(); return `${c?.repoPath ?? '-'} ${s?.modelHints?.[0] ?? '-'} ${SP.resolveRoleProvider('analyze.plan', cfg).constructor.name}`; };
					const body = async (): Promise<void> => { out[k]!.push(probe()); for (let st = 0; st < steps; st++) { await new Promise<void>(r => { gates[k] = r; }); out[k]!.push(probe()); } };
					const wrap: Record<string, (f: () => Promise<void>) => Promise<void>> = { route: f => SP.runWithRoutingContext({ router, repoPath: repoP }, f), sampler: f => SP.runWithSamplerContext(async () => ({ role: 'assistant', content: 'ok' }), [`h${k}`], f), client: f => SP.runWithClientProviderContext('cli-codex', f), none: f => f(), nested: f => SP.runWithSamplerContext(async () => ({ role: 'assistant', content: 'ok' }), [`h${k}`], () => SP.runWithRoutingContext({ router, repoPath: repoP }, f)) };
					gates[k] = () => { done[k] = wrap[kinds[k]!]!(body); };
				}
				for (const k of sq) { const g = gates[k]!; gates[k] = () => { }; g(); await null; await null; await null; await null; }
				await Promise.all(done);
				for (let k = 0; k < nflows; k++) { const rp = ['/a', '/b', '/a'][k], kd = kinds[k]!; const head = `${kd === 'route' || kd === 'nested' ? rp : '-'} ${kd === 'sampler' || kd === 'nested' ? `h${k}` : '-'} `; const cls = kd === 'sampler' || kd === 'nested' ? 'McpSamplingProvider' : kd === 'route' || kd === 'client' ? 'CliProvider' : 'OllamaProvider'; if (out[k]!.length !== steps + 1 || out[k]!.some(x => x !== head + cls)) { fail(`contexts ${kinds.join(',')}`, `flows ${kinds.join(', ')} run in order ${sq.join('')}: flow ${k} saw ${show(out[k])}, expected ${head}${cls}`, { kinds, order: sq }); return; } }
			}
			let threw = false; try { await SP.runWithRoutingContext({ router: undefined }, async () => { SP.resolveRoleProvider('review', cfg); }); } catch { threw = true; } if (!threw) { fail('nullish router', 'a run context without a router silently falls back', {}); return; }
		}
	});
	server.close(); (server as any).closeAllConnections?.(); void SHARD;
	chk.finish();
});
