// C41: the cloud, Kubernetes and GitHub tools run exactly the command asked for, with the guards and secrecy they promise.
import { Check, main, THOROUGH, repo, permutations, product } from '../lib/mc.mts';
import { CLI } from '../lib/clispec.mts';
import { EventEmitter } from 'node:events';
import { Readable } from 'node:stream';
import { existsSync, readFileSync, statSync, writeFileSync } from 'node:fs';

type Call = { argv: string[]; cwd: string | undefined; files: Map<string, { text: string; mode: number }>; end: (code: number | null, out?: string, err?: string) => void };
let calls: Call[] = [], answer: ((c: Call) => void) | null = null, missing = false;
const fileOf = (a: string): string => a.replace(/^fileb?:\/\//, '');
const look = (c: Call): void => { for (const a of c.argv.slice(1)) { const f = fileOf(a); if (f.startsWith('/') && existsSync(f) && statSync(f).isFile()) c.files.set(a, { text: readFileSync(f, 'utf8'), mode: statSync(f).mode & 0o777 }); } };
(globalThis as any).__mcSpawn = (cmd: string, args: string[], o: any) => {
	const e: any = new EventEmitter(); e.pid = 4; e.kill = () => true; e.unref = () => {}; e.stdin = { write() {}, end() {}, on() {} };
	e.stdout = new Readable({ read() {} }); e.stderr = new Readable({ read() {} });
	if (missing) { setImmediate(() => e.emit('error', Object.assign(new Error(`spawn ${cmd} ENOENT`), { code: 'ENOENT' }))); return e; }
	const c: Call = { argv: [cmd, ...args], cwd: o?.cwd, files: new Map(), end: (code, out = '', err = '') => {
		look(c); if (out) e.stdout.push(Buffer.from(out)); if (err) e.stderr.push(Buffer.from(err)); e.stdout.push(null); e.stderr.push(null);
		let n = 0; const done = (): void => { if (++n === 2) { e.emit('exit', code, code === null ? 'SIGKILL' : null); e.emit('close', code, code === null ? 'SIGKILL' : null); } }; e.stdout.on('end', done); e.stderr.on('end', done); e.stdout.resume(); e.stderr.resume();
	} };
	look(c); calls.push(c); e.emit('spawn'); if (answer) setImmediate(() => answer!(c));
	return e;
};
const ISSUE = { number: 23, title: 't', name: 'n', state: 'OPEN', author: { login: 'a' }, assignees: [], labels: [], url: 'u', createdAt: 'c', updatedAt: 'u', body: 'b', comments: [], nameWithOwner: 'a/b', jobs: [], files: [], reviewRequests: [], statusCheckRollup: [], isDraft: false, baseRefName: 'm', headRefName: 'h', additions: 1, deletions: 1, changedFiles: 1, mergeable: 'x', mergeStateStatus: 'y', tagName: 'v', description: 'd', visibility: 'PUBLIC', isPrivate: false, isFork: false, isArchived: false, pushedAt: 'p', stargazerCount: 1, forkCount: 1, defaultBranchRef: { name: 'm' }, primaryLanguage: { name: 'x' }, workflowName: 'w', displayTitle: 'd', conclusion: 'c', status: 's', headBranch: 'h', publishedAt: 'p', owner: { login: 'o' }, items: { totalCount: 0 }, fields: { totalCount: 0 }, readme: '', shortDescription: '', public: true, closed: false, id: 'i' };
const said = (c: Call): string => /(^| )(list|item-list|field-list)( |$)/.test(c.argv.join(' ')) && c.argv[0] === 'gh' ? (c.argv[1] === 'project' ? '{"projects":[],"items":[],"fields":[]}' : '[]') : JSON.stringify(ISSUE);
const ok = (c: Call): void => c.end(0, said(c));

const STYLES: ((n: string) => string)[] = [n => `V-${n}-v`, n => `  ${n.toUpperCase()}/, ${n};  `, n => `a b;$(x) "${n}" 'q' | \`y\` %s \\n\nline`, n => `ü=${n}&*?[x]`];
const value = (n: string, s: any, st: (n: string) => string): any => !s ? st(n) : s.enum ? s.enum[0] : s.type === 'number' || s.type === 'integer' ? 23 : s.type === 'boolean' ? true : s.type === 'array' ? [st(`${n}.0`), st(`${n}.1`)] : s.type === 'object' ? { [st(`${n}.k`).replace(/=/g, '')]: st(`${n}.v`) } : st(n);
const words = (t: string, st: (n: string) => string): string[] => t === '' ? [] : t.split(' ').map(w => w.replace(/␣/g, ' ').replace(/\{([\w.]+)\}/g, (_, n: string) => n.endsWith('.k') ? st(n).replace(/=/g, '') : st(n)));
const FIXED: Record<string, (st: (n: string) => string) => any> = {
	cloud_aws_s3_rm: st => ({ path: `s3://bkt/${st('path')}` }), cloud_aws_ec2_terminate: () => ({ confirmCount: 2 }), 'cloud_aws_lambda_update-code': st => ({ imageUri: st('imageUri') }), cloud_aws_cloudformation_deploy: st => ({ templatePath: st('templatePath') }), cloud_aws_cloudformation_delete: st => ({ confirmStack: st('stackName') }), 'cloud_aws_iam_list-attached-policies': st => ({ name: st('name') }), cloud_gcp_storage_rm: st => ({ path: `gs://bkt/${st('path')}` }), cloud_gcp_compute_delete: () => ({ confirmCount: 2 }), cloud_gcp_run_deploy: st => ({ image: st('image') }), cloud_gcp_run_delete: st => ({ confirmService: st('name') }), cloud_az_vm_delete: () => ({ confirmCount: 2 }), k8s_apply: st => ({ manifestPath: st('manifestPath') }), k8s_delete: st => ({ name: st('name') }), 'gh:project:item-add': st => ({ url: st('url') }), 'gh:project:item-update': st => ({ value: st('value') }),
};
const SCOPE = new Set(['profile', 'region', 'endpointUrl', 'project', 'account', 'subscription', 'context', 'namespace', 'kubeconfig', 'repo', 'owner']);
const SECRET = new Set(['secretString', 'accountKey', 'sasToken', 'connectionString']);

await main(async () => {
	const chk = new Check('C41', 'exploration');
	chk.rule = 'for each of the 118 tools: its command alone, with each option (each value of an enumerated one) under three kinds of values, with every pair of options and with all together; every confirmation right and wrong; every secret tool with and without reveal; every completion order of three concurrent calls that hand over content in a file; failing, killed and missing programs';
	const RG = await repo('src/daemon/tools/registry.ts'); RG._resetRegistryForTests();
	(await repo('src/daemon/tools/builtins/cloud/index.ts')).registerCloudTools(); (await repo('src/daemon/tools/builtins/k8s/index.ts')).registerK8sTools(); (await repo('src/daemon/tools/builtins/gh/index.ts')).registerGhTools();
	const deps = (): any => ({ send() {}, requestId: 1, sessionId: 's', repoPath: '/nowhere' });
	const run = async (id: string, input: any, how: ((c: Call) => void) | null = ok): Promise<{ r: any; cs: Call[] }> => {
		chk.evaluations++; chk.states++; calls = []; answer = how;
		const r = await RG.getTool(id).execute(input, deps()); if (r.success) chk.nontrivial++;
		return { r, cs: calls };
	};
	/** is `part` found in one piece in the command? */
	const holds = (a: string[], part: string[]): boolean => { for (let i = 0; i + part.length <= a.length; i++) if (part.every((w, j) => a[i + j] === w)) return true; return part.length === 0; };
	const inOrder = (a: string[], part: string[]): boolean => { let j = 0; for (const w of a) if (w === part[j]) j++; return j === part.length && a[0] === part[0] && a[1] === part[1]; };
	const split = (a: string[]): string[][] => { const g: string[][] = [[]]; for (const w of a) { if (w.startsWith('-') && w !== '-') g.push([w]); else g.at(-1)!.push(w); } return g; };
	const temp = (w: string): string => w.replace(/^(fileb?:\/\/)?\/.*(insrc-|\/TMP\.)[^/]*$/s, '$1/TMP');
	const compare = (id: string, input: any, got0: string[], base0: string[], adds0: string[][]): void => {
		const got = got0.map(temp), base = base0.map(temp), adds = adds0.map(g => g.map(temp)), want = [...base, ...adds.flat()], s = (a: string[]): string => JSON.stringify([...a].sort());
		const bad = s(got) !== s(want) ? 'other words' : ![...adds, ...split(base).slice(1)].every(g => holds(got, g.filter((w, i) => i < 2 || w !== '/TMP'))) || !inOrder(got, split(base)[0]!) || (base.includes('--') && got.slice(got.indexOf('--')).length !== base.slice(base.indexOf('--')).length) ? 'words torn apart' : '';
		if (bad) chk.violation('cli-command', `${id} runs ${JSON.stringify(got)} instead of ${JSON.stringify(want)} (${bad})`, { id, input });
	};
	const place = (base: string[], opt: string, st: (n: string) => string): { base: string[]; add: string[] } | null => {
		const m = /^\[-(.*?)\] (.*)$/s.exec(opt); if (!m) return { base, add: words(opt, st) };
		const out = m[1] === '' ? [''] : words(m[1]!, st).filter((w, i, a) => !(w === '' && i === a.length - 1 && a.length > 1) || true), into = words(m[2]!, st);
		for (let i = 0; i + out.length <= base.length; i++) if (out.every((w, j) => base[i + j] === w)) return { base: [...base.slice(0, i), ...into, ...base.slice(i + out.length)], add: [] };
		return null;
	};
	const tools: any[] = RG.listTools(), ids = new Set(tools.map(t => t.id));
	for (const id of Object.keys(CLI)) if (!ids.has(id)) chk.violation('cli-registered', `${id} is not registered`, { id });
	for (const t of tools) if (!(t.id in CLI)) chk.note(`unlisted tool ${t.id}`);
	for (const [id, [approval, command, opts]] of Object.entries(CLI)) {
		const t = RG.getTool(id); if (!t) continue;
		const P: any = t.inputSchema.properties, req: string[] = t.inputSchema.required ?? [];
		const minimal = (st: (n: string) => string): any => ({ ...Object.fromEntries(req.map(k => [k, value(k, P[k], st)])), ...FIXED[id]?.(st) });
		const given = (key: string, st: (n: string) => string): any => { const [k, v] = key.split(/=(.*)/s); return { [k!]: v !== undefined ? v : value(k!, P[k!], st) }; };
		const one = async (keys: string[], st: (n: string) => string): Promise<void> => {
			const input = Object.assign(minimal(st), ...keys.map(k => given(k, st))), { r, cs } = await run(id, input);
			let cmds = command.split(' && ').map(c => words(c, st)), adds: string[][] = [], scope: string[][] = [];
			for (const k of keys) {
				const o = opts[k]!; if (o.startsWith('= ')) { cmds = o.slice(2).split(' && ').map(c => words(c, st)); continue; }
				const p = place(cmds.at(-1)!, o, st); if (!p) return; // two options for one place
				if (p.add.length === 0 && o !== '') cmds = cmds.map(c => place(c, o, st)?.base ?? c); else (SCOPE.has(k) ? scope : adds).push(p.add);
			}
			if (cs.length !== cmds.length) { chk.violation('cli-command', `${id} runs ${cs.length} commands (${r.error ?? ''})`, { id, input }); return; }
			cs.forEach((c, i) => compare(id, input, c.argv, cmds[i]!, i === cmds.length - 1 ? [...scope, ...adds] : scope));
			if (!r.success) chk.violation('cli-result', `${id} reports failure of a command that succeeded: ${r.error}`, { id, input });
			for (const k of keys) if (SECRET.has(k) && r.output.includes(st(k))) chk.violation('cli-secret', `${id} prints its ${k}`, { id, input });
		};
		for (const st of STYLES) { await one([], st); for (const k of Object.keys(opts)) await one([k], st); }
		const keys = Object.keys(opts), free = (a: string, b: string): boolean => a.split('=')[0] !== b.split('=')[0] && !(id === 'cloud_gcp_container_get-credentials' && /^(zone|region)$/.test(a) && /^(zone|region)$/.test(b)) && !(/^\[-/.test(opts[a]!) && /^\[-/.test(opts[b]!));
		for (let i = 0; i < keys.length; i++) for (let j = i + 1; j < keys.length; j++) if (free(keys[i]!, keys[j]!)) await one([keys[i]!, keys[j]!], STYLES[0]!);
		const whole: string[] = []; for (const k of keys) if (!opts[k]!.startsWith('=') && whole.every(w => free(w, k))) whole.push(k);
		for (const st of STYLES) await one(whole, st);
		if (THOROUGH) for (let m = 0; m < 1 << Math.min(whole.length, 10); m++) await one(whole.filter((_, i) => i < 10 && (m >> i) & 1), STYLES[0]!);
		// approval
		const st = STYLES[0]!, min = minimal(st), full = Object.assign({}, min, ...whole.map(k => given(k, st)));
		for (const input of [min, full]) {
			const need = typeof t.requiresApproval === 'function' ? t.requiresApproval(input) : t.requiresApproval === true;
			if (need !== approval) chk.violation('cli-approval', `${id} ${need ? 'asks' : 'does not ask'} for approval`, { id, input });
			if (!need || !approval) continue;
			const g = await t.buildApprovalGate(input), shown = `${g.title}\n${g.content}`;
			for (const m of command.matchAll(/\{([\w.]+)\}/g)) { const v = st(m[1]!); if (!/^(value|secretString)/.test(m[1]!) && !(input === full && whole.some(k => opts[k]!.startsWith('[-') && opts[k]!.includes(`{${m[1]}}`))) && !shown.includes(v)) chk.violation('cli-approval', `the approval of ${id} does not show ${m[1]}`, { id, input, shown }); if (/^secretString/.test(m[1]!) && shown.includes(v)) chk.violation('cli-secret', `the approval of ${id} shows the secret`, { id }); }
			for (const k of whole) { if (SCOPE.has(k) && (!/^gh[:_]/.test(id) || k === 'repo') && input === full && !shown.includes(st(k))) chk.violation('cli-approval', `the approval of ${id} does not show ${k}`, { id, input, shown }); if (SECRET.has(k) && shown.includes(st(k))) chk.violation('cli-secret', `the approval of ${id} shows its ${k}`, { id }); }
		}
		// what one answer may stand for: an approval kept for one scope or resource does not serve another
		if (t.access) {
			const key = (x: any): string => t.access.extractKey(x, deps());
			if (approval && !/(secretsmanager_get|ssm_get-parameter|ecr_login|secrets_access|secret_show)$/.test(id) && t.access.severity !== 'destructive') chk.violation('cli-access', `${id} changes things, but its approval is kept`, { id });
			for (const k of ['profile', 'region', 'project', 'subscription', 'resourceGroup', 'zone']) if (P[k] && new Set([{ ...min, [k]: undefined }, { ...min, [k]: 'one' }, { ...min, [k]: 'two' }].map(key)).size !== 3) chk.violation('cli-access', `one approval of ${id} serves every ${k}`, { id });
			if (approval && t.access.severity !== 'destructive') for (const k of new Set([...command.matchAll(/\{(\w+)[\w.]*\}/g)].map(m => m[1]!))) if (P[k] && !/^(value|secretString)$/.test(k)) { const other = { ...min, [k]: value(k, P[k], n => `other-${n}`) }; if (key(other) === key(min)) chk.violation('cli-access', `one approval of ${id} serves every ${k}`, { id }); }
		}
		// failures
		for (const [code, err] of [[1, 'boom'], [2, ''], [null, '']] as [number | null, string][]) { const { r } = await run(id, min, c => c.end(code, '', err)); if (r.success || !r.error) chk.violation('cli-result', `${id} reports success of a command that ended with ${code}`, { id }); }
		missing = true; { const { r } = await run(id, min); if (r.success || !r.error) chk.violation('cli-result', `${id} reports success without its program`, { id }); } missing = false;
		// what is required is required
		for (const k of req) for (const v of [undefined, '', null, ...(P[k].type === 'array' ? [[]] : [])]) { if (P[k].type === 'boolean') continue; const { r, cs } = await run(id, { ...min, [k]: v }); if ((r.success || cs.length > 0) && !/secret.*value|item-update/.test(`${id}${k}`)) chk.violation('cli-required', `${id} runs without ${k}: ${JSON.stringify(cs.map(c => c.argv))}`, { id, k, v }); }
	}
	// guards
	const guard = async (id: string, input: any, allowed: boolean): Promise<void> => { const { r, cs } = await run(id, input); if (cs.length > 0 !== allowed || r.success !== allowed) chk.violation('cli-guard', `${id} ${cs.length > 0 ? 'runs' : 'refuses'} ${JSON.stringify(input)}`, { id, input }); };
	for (const [tool, sch] of [['cloud_aws_s3_rm', 's3'], ['cloud_gcp_storage_rm', 'gs']] as const) for (const [tail, b] of [['bkt', 'bkt'], ['bkt/', 'bkt'], ['bkt/p/q', 'bkt'], ['b-2.x/bkt', 'b-2.x'], ['', null]] as [string, string | null][])
		for (const c of [undefined, '', 'bkt', 'b-2.x', 'bk', 'bkt/', 'bkt/p/q', `${sch}://bkt`, 'BKT', '*']) for (const rec of [undefined, false, true]) { if (b === null && rec !== true) continue; await guard(tool, { path: `${sch}://${tail}`, ...(rec === undefined ? {} : { recursive: rec }), ...(c === undefined ? {} : { confirmBucket: c }) }, rec !== true || (b !== null && c === b)); }
	for (const [tool, key, x] of [['cloud_aws_ec2_terminate', 'instanceIds', {}], ['cloud_gcp_compute_delete', 'names', { zone: 'z' }], ['cloud_az_vm_delete', 'names', { resourceGroup: 'g' }]] as const) for (const n of [1, 2, 3]) for (const c of [undefined, 0, 1, 2, 3, 4, '2', true, NaN]) await guard(tool, { [key]: ['i-1', 'i-2', 'i-3'].slice(0, n), ...x, ...(c === undefined ? {} : { confirmCount: c }) }, c === n);
	for (const [tool, key, conf] of [['cloud_aws_cloudformation_delete', 'stackName', 'confirmStack'], ['cloud_gcp_run_delete', 'name', 'confirmService']] as const) for (const n of ['prod', 'prod-2']) for (const c of [undefined, '', 'prod', 'prod-2', 'PROD', 'prod ', true]) await guard(tool, { [key]: n, ...(c === undefined ? {} : { [conf]: c }) }, c === n);
	for (const [ns, c, all, name, label] of product([undefined, 'dev', 'prod'], [undefined, '', 'dev', 'prod', 'pro', 'rod', 'PROD', ' prod', 'production', true], [undefined, false, true], [undefined, 'web', '--all', '-A', '--all-namespaces=true'], [undefined, 'a=b'])) {
		const input = Object.fromEntries(Object.entries({ resource: 'pods', namespace: ns, confirmNamespace: c, all, name, labelSelector: label }).filter(e => e[1] !== undefined));
		if (name !== undefined && name.startsWith('-')) { const { r, cs } = await run('k8s_delete', input); if ((cs.length > 0 || r.success) && all !== true) chk.violation('cli-guard', `k8s_delete runs ${JSON.stringify(cs[0]?.argv)}: everything goes without confirmNamespace`, { input }); continue; }
		await guard('k8s_delete', input, all === true ? ns !== undefined && c === ns : name !== undefined || label !== undefined);
	}
	await guard('k8s_delete', { resource: '--all', name: 'pods' }, false);
	for (const m of [{}, { zipPath: 'z' }, { imageUri: 'i' }, { s3Bucket: 'b' }, { s3Key: 'k' }, { s3Bucket: 'b', s3Key: 'k' }]) await guard('cloud_aws_lambda_update-code', { functionName: 'f', ...m }, 'zipPath' in m || 'imageUri' in m || ('s3Bucket' in m && 's3Key' in m));
	for (const op of [{}, { repo: 'a/b' }, { issueNumber: 4 }, { repo: 'a/b', issueNumber: 4 }, { url: 'u' }]) await guard('gh:project:item-add', { number: 3, ...op }, 'url' in op || ('repo' in op && 'issueNumber' in op));
	for (const op of [{ zone: 'z' }, { region: 'r' }, { zone: 'z', region: 'r' }, {}]) for (const loc of [undefined, 'zone', 'region']) { const { cs } = await run('cloud_gcp_container_get-credentials', { cluster: 'c', ...op, ...(loc ? { location: loc } : {}) }), by = loc ?? ('region' in op ? 'region' : 'zone'), want = by in op ? [`--${by}`, (op as any)[by]] : []; compare('cloud_gcp_container_get-credentials', { ...op, loc }, cs[0]!.argv, ['gcloud', 'container', 'clusters', 'get-credentials', 'c'], [want]); }
	for (const [x, want] of [[{ singleSelectOptionId: 'o' }, ['--single-select-option-id', 'o']], [{ date: '2026-01-02' }, ['--date', '2026-01-02']], [{ number: 0 }, ['--number', '0']], [{ number: 1.5 }, ['--number', '1.5']], [{ value: 'v' }, ['--text', 'v']]] as [any, string[]][]) { const { cs } = await run('gh:project:item-update', { projectId: 'p', itemId: 'i', fieldId: 'f', ...x }); compare('gh:project:item-update', x, cs[0]?.argv ?? [], ['gh', 'project', 'item-edit', '--project-id', 'p', '--id', 'i', '--field-id', 'f'], [want]); }
	// secrets stay out of what is printed
	for (const secret of ['S3CR3T-value', 'line one S3CR3T\nline two', '{"k":"S3CR3T"}', 'S3CR3T"quoted\\', ' S3CR3T ']) for (const reveal of [undefined, false, true]) for (const [id, input, out] of [
		['cloud_aws_secretsmanager_get', { secretId: 'i' }, JSON.stringify({ ARN: 'a', Name: 'i', VersionId: 'v', SecretString: secret })], ['cloud_aws_ssm_get-parameter', { name: 'n', withDecryption: true }, JSON.stringify({ Parameter: { Name: 'n', Type: 'SecureString', Value: secret, Version: 3 } })], ['cloud_aws_ssm_get-parameter', { name: 'n' }, JSON.stringify({ Parameter: { Name: 'n', Type: 'SecureString', Value: secret, Version: 3 } })],
		['cloud_aws_ecr_login', {}, secret], ['cloud_gcp_secrets_access', { secret: 's' }, secret], ['cloud_az_keyvault_secret_show', { vault: 'v', name: 'n' }, JSON.stringify({ id: 'i', name: 'n', value: secret })],
	] as [string, any, string][]) {
		const { r } = await run(id, { ...input, ...(reveal === undefined ? {} : { reveal }) }, c => c.end(0, out)), shown = r.output.includes('S3CR3T');
		if (!r.success || shown !== (reveal === true)) chk.violation('cli-secret', `${id} with reveal=${reveal} ${shown ? 'prints' : 'does not print'} the value`, { id, output: r.output });
	}
	for (const [id, input] of [['cloud_aws_secretsmanager_put', { secretId: 'i', secretString: 'S3CR3T' }], ['cloud_gcp_secrets_add', { secret: 's', value: 'S3CR3T' }], ['cloud_az_keyvault_secret_set', { vault: 'v', name: 'n', value: 'S3CR3T' }]] as [string, any][]) { const { r } = await run(id, input, c => c.end(0, '{"name":"n"}')), g = await RG.getTool(id).buildApprovalGate(input); if (r.output.includes('S3CR3T') || `${g.title}${g.content}`.includes('S3CR3T')) chk.violation('cli-secret', `${id} prints the value it stores`, { id }); }
	// content handed over in a file is the content given, whatever runs at the same time, and the file goes away
	const CONTENT: [string, (x: string) => any, (x: string) => string][] = [
		['k8s_apply', x => ({ manifest: x }), x => x], ['cloud_aws_lambda_invoke', x => ({ functionName: 'f', payloadString: x }), x => x], ['cloud_aws_lambda_invoke', x => ({ functionName: 'f', payload: { x } }), x => JSON.stringify({ x })], ['cloud_aws_cloudformation_deploy', x => ({ stackName: 's', templateBody: x }), x => x], ['cloud_gcp_functions_call', x => ({ name: 'f', dataString: x }), x => x], ['cloud_gcp_functions_call', x => ({ name: 'f', data: { x } }), x => JSON.stringify({ x })], ['cloud_gcp_secrets_add', x => ({ secret: 's', value: x }), x => x],
	];
	const realNow = Date.now; Date.now = () => 1_772_000_000_000;
	for (const [id, input, text] of CONTENT) for (const n of [1, 2, 3]) for (const order of permutations(Array.from({ length: n }, (_, i) => i))) for (const code of [0, 1]) {
		chk.evaluations++; chk.states++; calls = []; answer = null;
		const all = Array.from({ length: n }, (_, i) => `content ${i} "ü" $x\n`), started = all.map(x => RG.getTool(id).execute(input(x), deps()));
		for (const by = realNow() + 20_000; calls.length < n && realNow() < by;) await new Promise(r => setImmediate(r));
		if (calls.length !== n) { chk.violation('cli-content', `${id}: ${calls.length} of ${n} calls ran`, { id }); continue; }
		const mine = calls.slice(), texts = all.map(text), first = mine.map(c => [...c.files.values()].find(f => texts.includes(f.text))?.text);
		if (new Set(first).size !== n || first.includes(undefined)) chk.violation('cli-content', `${n} concurrent calls of ${id} hand over ${JSON.stringify(mine.map(c => [...c.files.values()].map(f => f.text)))}`, { id, order });
		if (id === 'cloud_gcp_secrets_add') for (const c of mine) for (const f of c.files.values()) if (f.mode & 0o077) chk.violation('cli-secret', `${id} leaves the secret readable to others (mode ${f.mode.toString(8)})`, { id });
		for (const i of order) { const c = mine[i]!; if (id === 'cloud_aws_lambda_invoke') writeFileSync(c.argv.at(-1)!, JSON.stringify({ answer: first[i] })); c.end(code, id === 'cloud_aws_lambda_invoke' ? '{"StatusCode":200}' : '{}'); for (let k = 0; k < 200; k++) await new Promise(r => setImmediate(r)); const last = [...c.files.values()].find(f => texts.includes(f.text))?.text; if (first[i] !== undefined && last !== first[i]) chk.violation('cli-content', `the file of one call of ${id} is gone or changed before its command ends`, { id, order }); }
		const rs = await Promise.all(started);
		for (const c of mine) for (const a of c.files.keys()) if (existsSync(fileOf(a))) chk.violation('cli-content', `${id} leaves ${a} behind`, { id, code });
		if (rs.some(r => r.success !== (code === 0))) chk.violation('cli-result', `${id} misreports code ${code}`, { id });
		if (id === 'cloud_aws_lambda_invoke' && code === 0) rs.forEach((r, i) => { if (!JSON.stringify(r.data).includes(`content ${i}`)) chk.violation('cli-content', `call ${i} of ${id} gets the answer of another`, { id, order, data: r.data }); });
		if (code === 0) chk.nontrivial++;
	}
	Date.now = realNow;
	chk.assumptions.push('The programs are stand-ins that record their arguments; that they understand those arguments follows their manuals.');
	chk.finish();
});
