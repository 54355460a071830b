// A small GitHub: answers the `gh` command lines the tracker uses, keeps the repositories, and is a fault point at every call.
import { nativePoint, Crash } from './fsfault.mts';
export interface Issue { n: number; id: number; title: string; body: string; labels: string[]; type?: string | undefined; state: string; comments: string[]; milestone?: string | undefined; parent?: string | undefined; assignees: string[]; author: string }
export interface Repo { issues: Issue[]; labels: Set<string>; milestones: Set<string> }
export class GhError extends Error { constructor(m: string) { super(`Command failed: gh ${m}`); } }
const VALUE = new Set(['--repo', '-R', '--title', '--body', '--label', '--milestone', '--json', '-q', '--jq', '--state', '--limit', '--owner', '--format', '--name', '--data-type', '--single-select-options', '--url', '-X', '--method', '--color', '--description', '--add-label', '--remove-label', '-H']);
export class Hub {
	repos = new Map<string, Repo>(); calls: string[] = []; nextId = 9001; unknown: string[] = [];
	auth = true; types: Set<string> | null = new Set(['Epic', 'Story', 'Task']); sub = true; labelsOk = true; milestonesOk = true; commentsOk = true; createOk = true; listOk = true; login = 'me'; scopes: string | null = 'admin:org, project, repo';
	failAt = -1; garbleAt = -1; orgTypesWritable = true; projects: { n: number; owner: string; title: string; fields: Record<string, string[]>; items: string[]; closed?: boolean }[] = []; projectsOk = true; search: (q: string, first: number, after: string | null) => any = () => ({});
	repo(r: string): Repo { let x = this.repos.get(r); if (!x) this.repos.set(r, x = { issues: [], labels: new Set(), milestones: new Set() }); return x; }
	snap(): any { return [...this.repos].map(([r, x]) => [r, x.issues.map(i => ({ ...i })), [...x.labels].sort(), [...x.milestones].sort()]); }
	exec(args: readonly string[]): string {
		const label = 'gh ' + args.filter(a => !a.includes('\n') && a.length < 120).join(' '); this.calls.push(label);
		const h = nativePoint(label); if (h === 'drop') throw new Crash(); if (h === 'error') throw new GhError(label);
		if (this.calls.length - 1 === this.failAt) throw new GhError(label); const out = this.run([...args], label); if (this.calls.length - 1 === this.garbleAt) return '<html>bad gateway</html>\n'; if (h === 'torn') throw new Crash(); return out;
	}
	private run(args: string[], label: string): string {
		const pos: string[] = [], f: Record<string, string[]> = {}, fields: [string, string, boolean][] = [];
		for (let i = 0; i < args.length; i++) { const a = args[i]!; if (a === '-f' || a === '-F' || a === '--field' || a === '--raw-field') { const kv = args[++i] ?? ''; const at = kv.indexOf('='); fields.push([kv.slice(0, at), kv.slice(at + 1), a === '-F' || a === '--field']); } else if (VALUE.has(a)) (f[a] ??= []).push(args[++i] ?? ''); else if (a.startsWith('--') && a.includes('=')) (f[a.slice(0, a.indexOf('='))] ??= []).push(a.slice(a.indexOf('=') + 1)); else if (a.startsWith('-') && a.length > 1) f[a] = ['']; else pos.push(a); }
		const no = (why = ''): never => { throw new GhError(`${label}: ${why}`); }, one = (k: string): string | undefined => f[k]?.[0], fld = (k: string): string | undefined => fields.find(x => x[0] === k)?.[1];
		const unknown = (): never => { this.unknown.push(args.join(' ')); return no('unknown command'); };
		if (pos[0] === 'auth' && pos[1] === 'status') { if (!this.auth) no('not logged in'); return ''; }
		if (!this.auth) no('not logged in');
		const R = one('--repo') ?? one('-R') ?? '', find = (r: string, n: string): Issue => { const m = /(\d+)$/.exec(n); return this.repos.get(r)?.issues.find(x => x.n === Number(m?.[1])) ?? no(`no issue ${r}#${n}`); };
		if (pos[0] === 'label' && pos[1] === 'create') { if (!this.labelsOk) no('label'); if (pos[2]!.length > 50) no('label name too long'); if (this.repo(R).labels.has(pos[2]!) && !('--force' in f)) no('exists'); this.repo(R).labels.add(pos[2]!); return ''; }
		if (pos[0] === 'issue') {
			if (pos[1] === 'create') { if (!this.createOk) no('create'); const l = (f['--label'] ?? []).flatMap(x => x.split(',')); for (const x of l) if (!this.repo(R).labels.has(x)) no(`label ${x} not found`); const i = this.add(R, one('--title') ?? '', one('--body') ?? '', l); return `https://github.com/${R}/issues/${i.n}\n`; }
			if (pos[1] === 'view') { const i = find(R, pos[2]!); const j: any = { body: i.body, state: i.state, labels: i.labels.map(name => ({ name })), number: i.n, title: i.title }; const q = one('-q') ?? one('--jq'); if (q !== undefined) return String(j[q.slice(1)]) + '\n'; return JSON.stringify(Object.fromEntries((one('--json') ?? '').split(',').map(k => [k, j[k]]))) + '\n'; }
			if (pos[1] === 'edit') { const i = find(R, pos[2]!); if (one('--milestone') !== undefined) { if (!this.milestonesOk || !this.repo(R).milestones.has(one('--milestone')!)) no('milestone'); i.milestone = one('--milestone'); } if (one('--body') !== undefined) i.body = one('--body')!; if (one('--title') !== undefined) i.title = one('--title')!; for (const x of f['--add-label'] ?? []) i.labels.push(x); for (const x of f['--remove-label'] ?? []) i.labels = i.labels.filter(y => y !== x); return ''; }
			if (pos[1] === 'comment') { if (!this.commentsOk) no('comment'); find(R, pos[2]!).comments.push(one('--body') ?? ''); return ''; }
			if (pos[1] === 'close') { find(R, pos[2]!).state = 'CLOSED'; return ''; }
			if (pos[1] === 'list') { if (!this.listOk) no('list'); const st = one('--state') ?? 'open'; let l = [...(this.repos.get(R)?.issues ?? [])].reverse().filter(i => st === 'all' || i.state.toLowerCase() === st); for (const x of f['--label'] ?? []) for (const y of x.split(',')) l = l.filter(i => i.labels.includes(y)); l = l.slice(0, Number(one('--limit') ?? 30)); const q = one('-q') ?? one('--jq') ?? ''; const keys = (one('--json') ?? '').split(','); const j = l.map(i => Object.fromEntries(keys.map(k => [k, ({ number: i.n, url: `https://github.com/${R}/issues/${i.n}`, title: i.title, body: i.body } as any)[k]]))); if (q === '') return JSON.stringify(j) + '\n'; const m1 = /^\.\[0\]\.(\w+)$/.exec(q), m2 = /^\.\[\]\.(\w+)$/.exec(q); if (m1) return j[0] ? String((j[0] as any)[m1[1]!]) + '\n' : '\n'; if (m2) return j.map(x => String((x as any)[m2[1]!]) + '\n').join(''); return unknown(); }
			return unknown();
		}
		if (pos[0] === 'api') {
			if (pos[1] === 'user') return this.login + '\n';
			const path = (pos[1] ?? '').replace(/^\//, ''), method = one('-X') ?? one('--method') ?? (fields.length ? 'POST' : 'GET');
			if (path === 'user') return ['HTTP/2.0 200 OK', 'Content-Type: application/json', ...(this.scopes === null ? [] : [`X-Oauth-Scopes: ${this.scopes}`]), '', `{"login":"${this.login}"}`].join('\r\n') + '\n';
			if (path === 'graphql') { const q = fld('query') ?? ''; if (q.includes('issueTypes')) { if (this.types === null) no('issueTypes'); return JSON.stringify({ data: { organization: { issueTypes: { nodes: [...this.types!].map(name => ({ name })) } } } }); } if (q.includes('search')) return JSON.stringify(this.search(fld('q') ?? '', Number(fld('first')), fld('after') ?? null)); return unknown(); }
			let m = /^orgs\/([^/]+)\/issue-types$/.exec(path); if (m && method === 'POST') { if (!this.orgTypesWritable || this.types === null) no('issue types'); const en = fields.find(x => x[0] === 'is_enabled'); if (!en || !en[2] || en[1] !== 'true') no('is_enabled must be a boolean'); if (this.types!.has(fld('name')!)) no('exists'); this.types!.add(fld('name')!); return '{}'; }
			m = /^repos\/([^/]+\/[^/]+)\/issues$/.exec(path);
			if (m && method === 'POST') { if (!this.createOk) no('create'); const type = fld('type'), l = fields.filter(x => x[0] === 'labels[]').map(x => x[1]); if (type !== undefined && !this.types?.has(type)) no('type'); for (const x of l) { if (x.length > 50) no('label name too long'); this.repo(m[1]!).labels.add(x); } const i = this.add(m[1]!, fld('title') ?? '', fld('body') ?? '', l); i.type = type; return JSON.stringify({ url: 'x', number: i.n, id: i.id, title: i.title }); }
			m = /^repos\/([^/]+\/[^/]+)\/issues\/(\d+)\/sub_issues$/.exec(path);
			if (m && method === 'POST') { if (!this.sub) no('sub issues'); const p = find(m[1]!, m[2]!); const sid = fields.find(x => x[0] === 'sub_issue_id'); if (!sid || !sid[2]) no('sub_issue_id must be a number'); for (const r of this.repos.values()) for (const i of r.issues) if (i.id === Number(sid![1])) { if (i.parent) no('already has a parent'); i.parent = `${m[1]}#${p.n}`; return '{}'; } return no('no such sub issue'); }
			m = /^repos\/([^/]+\/[^/]+)\/milestones$/.exec(path); if (m && method === 'POST') { if (!this.milestonesOk || this.repo(m[1]!).milestones.has(fld('title')!)) no('422'); this.repo(m[1]!).milestones.add(fld('title')!); return '{}'; }
			return unknown();
		}
		if (pos[0] === 'project') {
			if (!this.projectsOk) no('project'); const o = one('--owner') ?? '';
			if (pos[1] === 'create') { const p = { n: this.projects.length + 1, owner: o, title: one('--title') ?? '', fields: {}, items: [] }; this.projects.push(p); return JSON.stringify({ number: p.n, url: `https://github.com/orgs/${o}/projects/${p.n}` }); }
			if (pos[1] === 'list') return JSON.stringify({ projects: this.projects.filter(p => p.owner === o).map(p => ({ number: p.n, title: p.title, url: `https://github.com/orgs/${o}/projects/${p.n}`, closed: p.closed === true })) });
			const p = this.projects.find(x => x.owner === o && x.n === Number(pos[2])) ?? no('no project');
			if (pos[1] === 'field-create') { const k = one('--name')!; if (p.fields[k]) no('field exists'); p.fields[k] = (one('--single-select-options') ?? '').split(','); return ''; }
			if (pos[1] === 'item-add') { if (!p.items.includes(one('--url')!)) p.items.push(one('--url')!); return ''; }
		}
		return unknown();
	}
	add(r: string, title: string, body: string, labels: string[]): Issue { const x = this.repo(r), i: Issue = { n: x.issues.length ? x.issues.at(-1)!.n + 1 : 7, id: this.nextId++, title, body, labels: [...labels], state: 'OPEN', comments: [], assignees: [], author: 'me' }; x.issues.push(i); return i; }
}
