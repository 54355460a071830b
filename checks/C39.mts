// C39: what a function calls — inside the code base, over HTTP, over a message broker — is recorded exactly, whatever the call is nested in, whatever binds its receiver and whatever was parsed before.
import { Check, main, THOROUGH, repo, product } from '../lib/mc.mts';

const chk = new Check('C39', 'exploration');
chk.rule = 'programs built from call shapes, nesting contexts, bindings and imports, each with the calls it makes written down from the language and the documented client tables; every program is parsed twice, in opposite orders, and must give exactly its calls both times';
const { getParser } = await repo('src/indexer/parser/registry.ts');
for (const m of ['typescript', 'python', 'go', 'java', 'scala']) await repo(`src/indexer/parser/${m}.ts`);
type Rel = [kind: string, from: string, to: string];
type Prog = { path: string; label: string; text: string; rels: Rel[]; from: string[]; calls: boolean };
const BOUND = ['CALLS_HTTP', 'PUBLISHES_TO', 'SUBSCRIBES_TO'];
function check(p: Prog, order: string): void {
	const path = `/r/one/${p.path}`, out = getParser(path).parse(path, p.text, '/r/one', 11) as { entities: any[]; relations: any[] };
	chk.evaluations++; if (p.rels.length) chk.nontrivial++;
	const names = new Map(out.entities.map(e => [e.id, e.name as string]));
	for (const f of p.from) if (![...names.values()].includes(f)) { chk.violation(`${p.path} ${p.label}`, `${p.path}: ${p.label}: ${f} is not found`, { source: p.text.split('\n') }); return; }
	const got = out.relations.filter(r => (BOUND.includes(r.kind) || (p.calls && r.kind === 'CALLS')) && p.from.includes(names.get(r.from) ?? '')).map(r => `${r.kind} ${names.get(r.from)} -> ${r.to}${r.resolved ? ' (resolved)' : ''}`);
	const want = p.rels.filter(r => p.calls || r[0] !== 'CALLS').map(([k, f, t]) => `${k} ${f} -> ${t}`);
	const norm = (xs: string[]): string[] => [...new Set(xs.filter(x => x.startsWith('CALLS '))), ...xs.filter(x => !x.startsWith('CALLS '))].sort();
	const a = norm(got), b = norm(want);
	if (a.join('\n') !== b.join('\n')) {
		const miss = b.filter(x => !a.includes(x)), more = a.filter(x => !b.includes(x));
		chk.violation(`${p.path} ${p.label}`, `${p.path}: ${p.label}${order}: ${miss.length ? `not recorded: ${miss.join('; ')}` : more.length ? `recorded but not made: ${more.join('; ')}` : `recorded a different number of times: ${a.join('; ')}`}`, { source: p.text.split('\n'), got, want });
		return;
	}
	for (const r of out.relations) if (BOUND.includes(r.kind) && (r.meta?.file !== path || r.meta?.repo !== '/r/one')) { chk.violation(`${p.path} meta`, `${p.path}: ${p.label}: ${r.kind} ${r.to} does not say where it was found`); return; }
}
const groups: Prog[][] = [];
const add = (ps: Prog[]): void => { for (let i = 0; i < ps.length; i += 400) groups.push(ps.slice(i, i + 400)); };
const deep = <T,>(xs: T[], each: number): T[] => THOROUGH ? xs : xs.filter((_, i) => i % each === 0);

// ---- TypeScript / JavaScript: shapes x contexts ----
type Shape = { e: string; rels: [string, string][] };
const C = (e: string, ...names: string[]): Shape => ({ e, rels: names.map(n => ['CALLS', n]) });
const H = (e: string, url: string, ...names: string[]): Shape => ({ e, rels: [['CALLS_HTTP', url], ...names.map(n => ['CALLS', n] as [string, string])] });
const tsShapes: Shape[] = [
	C('foo()', 'foo'), C('this.bar(1)', 'bar'), C('obj.baz(a)', 'baz'), C('a.b.qux()', 'qux'), C('a?.opt()', 'opt'), C('mk().next2()', 'mk', 'next2'), C('console.log(1)'), C('xs.push(1)'), C('Object.keys(a)'), C('JSON.parse(s)'), C('new Klass(1)'), C('a[b]()'), C('import("./x")'), C('get("/x")', 'get'), C('d.get("k")', 'get'), C('myfetch("/u")', 'myfetch'), C('axios.create()'), C('axios2.get("/u")', 'get'), C('fetch()', 'fetch'),
	H('fetch("/u")', '"/u"', 'fetch'), H('fetch(`/u/${id}`, { method: "POST" })', '`/u/${id}`', 'fetch'), H("fetch(base + '/u')", "base + '/u'", 'fetch'), H('axios("/u")', '"/u"', 'axios'), H('axios.get(URL2)', 'URL2', 'get'), H('axios.post("/u", d)', '"/u"', 'post'), H('axios.put("/u")', '"/u"', 'put'), H('axios.delete("/u")', '"/u"', 'delete'), H('axios.patch("/u")', '"/u"', 'patch'), H('axios.head("/u")', '"/u"', 'head'), H('axios.options("/u")', '"/u"', 'options'), H('axios.request(cfg)', 'cfg', 'request'), H('got("/u")', '"/u"', 'got'), H('got.post("/u")', '"/u"', 'post'), H('http.get("/u")', '"/u"', 'get'), H('https.request(o, cb)', 'o', 'request'), H('axios\n  .get("/u")', '"/u"', 'get'),
];
const tsExpr: [string, string, string[]][] = [['', 'X', []], ['argument', 'run0(1, X)', ['run0']], ['arrow', 'run0(() => X)', ['run0']], ['block arrow', 'run0(async (q) => { X; })', ['run0']], ['function expression', 'run0(function () { return X; })', ['run0']], ['await', '(await X)', []], ['array', '[X]', []], ['object', '({ k: X })', []], ['spread', '[...X]', []], ['ternary', '(a ? X : 2)', []], ['else value', '(a ? 2 : X)', []], ['and', '(a && X)', []], ['template', '`v${X}`', []], ['then', 'X.then(v => v)', []], ['chain', 'X.after0()', ['after0']], ['new argument', 'new Klass(X)', []], ['index', 'tab[X]', []], ['not', '!X', []], ['member', '(X).y', []], ['object method', '({ m2() { return X; } })', []], ['built-in argument', 'console.log(X)', []], ['map', 'xs.map(x => X)', []]];
const tsStmt: [string, string, string[]][] = [['', 'X;', []], ['return', 'return X;', []], ['const', 'const v = X;', []], ['if', 'if (X) { y = 1; }', []], ['then branch', 'if (a) X;', []], ['else branch', 'if (a) { y = 1; } else { X; }', []], ['for', 'for (const i of X) { y = i; }', []], ['loop body', 'for (let i = 0; i < 2; i++) { X; }', []], ['while', 'while (X) break;', []], ['try', 'try { X; } catch { y = 1; }', []], ['catch', 'try { y = 1; } catch (e) { X; }', []], ['finally', 'try { y = 1; } finally { X; }', []], ['switch', 'switch (a) { case 1: X; break; default: y = 2; }', []], ['throw', 'throw X;', []], ['assignment', 'y.z = X;', []], ['block', '{ { X; } }', []], ['label', 'l: { X; }', []], ['class in a function', 'class In { m3() { X; } }', []]];
const tsOuter: [string, (b: string) => string, string][] = [
	['function', b => `async function f1() {\nlet q = 1;\n${b}\nq = 2;\n}`, 'f1'], ['exported function', b => `export async function f1(a, b = 1) {\n${b}\n}`, 'f1'], ['arrow', b => `export const f1 = async () => {\n${b}\n};`, 'f1'], ['function expression', b => `const f1 = async function () {\n${b}\n};`, 'f1'], ['method', b => `class K1 {\n  async f1() {\nlet q = 1;\n${b}\nq = 2;\n  }\n}`, 'f1'], ['static method', b => `export class K1 extends B1 {\n  constructor() { super(); }\n  static async f1() {\n${b}\n  }\n}`, 'f1'], ['generator', b => `async function* f1() {\n${b}\n}`, 'f1'],
];
const put = (tpl: string, x: string): string => tpl.replace('X', () => x);
const js = (label: string, text: string, rels: Rel[], from = ['f1'], ext = 'ts'): Prog => ({ path: `src/a.${ext}`, label, text, rels, from, calls: true });
{
	const ps: Prog[] = []; let n = 0;
	for (const s of tsShapes) for (const [sn, st, sc] of tsStmt) for (const [en, et, ec] of tsExpr) for (const [e2, et2, ec2] of tsExpr) {
		if (!THOROUGH && e2 && (n++ % 23)) continue;
		if (en === 'spread' && st.startsWith('x')) continue;
		const [on, of] = tsOuter[n % tsOuter.length]!, body = put(st, put(et2, put(et, s.e)));
		ps.push(js(`${s.e.replace('\n', ' ')} in ${[en, e2, sn].filter(Boolean).join(' in ') || 'a statement'} of a ${on}`, `${of(body)}\nfunction g1() {}\n`, [...s.rels.map(([k, t]): Rel => [k, 'f1', t]), ...[...sc, ...ec, ...ec2].map((t): Rel => ['CALLS', 'f1', t])], ['f1', 'g1'], n % 3 ? 'ts' : n % 2 ? 'js' : 'tsx'));
		n++;
	}
	add(ps);
	const one: Prog[] = [];
	for (const [on, of, name] of tsOuter) for (const [a, b] of product(tsShapes, tsShapes)) one.push(js(`${a!.e}; ${b!.e} in a ${on}`.replace('\n', ' '), of(`  ${a!.e};\n  ${b!.e};`), [...a!.rels, ...b!.rels].map(([k, t]): Rel => [k, name, t])));
	for (const [a, b] of product(tsShapes, tsShapes)) one.push(js(`${a!.e} and ${b!.e} in two functions`.replace('\n', ' '), `function f1() { ${a!.e}; }\nconst f2 = () => { ${b!.e}; };\n${a!.e};\n`, [...a!.rels.map(([k, t]): Rel => [k, 'f1', t]), ...b!.rels.map(([k, t]): Rel => [k, 'f2', t])], ['f1', 'f2']));
	for (const s of tsShapes) one.push(js(`expression arrow ${s.e}`, `const f1 = () => ${s.e.startsWith('{') ? `(${s.e})` : s.e};`, s.rels.map(([k, t]): Rel => [k, 'f1', t])));
	add(deep(one, 2));
}
// ---- whose client is it: the nearest binding of the receiver decides ----
{
	type Bind = 'none' | 'axios' | 'other';
	const decl: Record<Bind, string> = { none: '', axios: 'const client = axios.create();', other: 'const client = new Map();' };
	const scopes: [string, (b: string) => string, boolean][] = [
		['arrow', b => `run0(() => {\n${b}\n});`, false], ['function', b => `run0(function () {\n${b}\n});`, false], ['declared function', b => `function inner() {\n${b}\n}`, false], ['arrow with the name as parameter', b => `run0((client) => {\n${b}\n});`, true], ['arrow with a bare parameter', b => `run0(client => {\n${b}\n});`, true], ['arrow with a destructured parameter', b => `run0(({ client }) => {\n${b}\n});`, true], ['arrow with a renamed parameter', b => `run0(({ c: client }, [x]) => {\n${b}\n});`, true], ['arrow with a default parameter', b => `run0((client = axios.create()) => {\n${b}\n});`, true],
		['arrow with another parameter', b => `run0((other, { client: o2 }) => {\n${b}\n});`, false], ['catch', b => `try { y(); } catch (client) {\n${b}\n}`, true], ['catch of another', b => `try { y(); } catch (err) {\n${b}\n}`, false], ['object method', b => `run0({ m2(client) {\n${b}\n} });`, true], ['if block', b => `if (a) {\n${b}\n}`, false], ['rest parameter', b => `run0((...client) => {\n${b}\n});`, true],
	];
	const isFn = (s: number): boolean => scopes[s]![0] !== 'if block';
	const ps: Prog[] = []; let n = 0;
	const binds: Bind[] = ['none', 'axios', 'other'];
	const outers: [string, (b: string) => string, boolean][] = [['no parameter', b => `function f1() {\n${b}\n}`, false], ['the name as parameter', b => `function f1(client) {\n${b}\n}`, true], ['typed parameter', b => `async function f1(client: Foo, x?: string) {\n${b}\n}`, true], ['method', b => `class K1 {\n f1(): void {\n${b}\n}\n}`, false]];
	// `own` is what the function itself binds; declarations inside an if block belong to the function around it
	const call = (u: string): string => `client.get('${u}');`;
	for (const [oi, o] of outers.entries()) for (const d0 of binds) for (let s1 = 0; s1 < scopes.length; s1++) for (const d1 of binds) for (const s2 of [-1, ...scopes.keys()]) for (const d2 of s2 < 0 ? ['none' as Bind] : binds) {
		if (o[2] && d0 !== 'none') continue; // a parameter and a const of one name do not compile
		if (scopes[s1]![2] && d1 !== 'none' || (s2 >= 0 && scopes[s2]![2] && d2 !== 'none')) continue;
		if ((!isFn(s1) && d1 !== 'none') || (s2 >= 0 && !isFn(s2) && d2 !== 'none')) continue; // block-scoped shadowing is not described
		if (!THOROUGH && s2 >= 0 && oi > 0 && n++ % 4) continue;
		const env0: Bind = o[2] ? 'other' : d0, b1: Bind = scopes[s1]![2] ? 'other' : d1, env1: Bind = b1 === 'none' ? env0 : b1, b2: Bind = s2 < 0 ? 'none' : scopes[s2]![2] ? 'other' : d2, env2: Bind = b2 === 'none' ? env1 : b2;
		const inner2 = s2 < 0 ? '' : scopes[s2]![1](`${decl[d2]}\n${call('c')}`), body = `${decl[d0]}\n${call('a')}\n${scopes[s1]![1](`${decl[d1]}\n${call('b')}\n${inner2}\n${call('d')}`)}\n${call('e')}`;
		const urls = [...(env0 === 'axios' ? ['a', 'e'] : []), ...(env1 === 'axios' ? ['b', 'd'] : []), ...(s2 >= 0 && env2 === 'axios' ? ['c'] : [])];
		ps.push({ path: 'src/b.ts', label: `${o[0]}, ${d0}; ${scopes[s1]![0]}, ${d1}; ${s2 < 0 ? '-' : `${scopes[s2]![0]}, ${d2}`}`, text: `${o[1](body)}\n`, rels: urls.map(u => ['CALLS_HTTP', 'f1', `'${u}'`]), from: ['f1'], calls: false });
	}
	// this.<field>: only a field or constructor parameter of this class typed HttpClient
	const fields: [string, string, boolean][] = [['none', '', false], ['constructor parameter', 'constructor(private http: HttpClient) {}', true], ['readonly parameter', 'constructor(private readonly http: HttpClient, private x: Foo) {}', true], ['field', 'private http: HttpClient;', true], ['initialised field', 'http: HttpClient = make();', true], ['other type', 'private http: Map<string, string>;', false], ['similar type', 'constructor(private http: HttpClientFactory) {}', false], ['other name', 'constructor(private web: HttpClient) {}', false], ['untyped', 'http = make();', false], ['optional', 'private http?: HttpClient;', true]];
	for (const [f, g] of product(fields, fields)) for (const abs of ['', 'abstract ', 'export ']) for (const where of ['next', 'inside'] as const) {
		const cls = (name: string, m: string, fd: typeof fields[number], extra: string): string => `${abs}class ${name} {\n  ${fd[1]}\n  ${m}() {\n    this.http.get('/${m}');\n    this.http.size();\n    ${extra}\n    this.http.post(\`/${m}2\`, b);\n  }\n}`;
		const text = where === 'next' ? `${cls('K1', 'f1', f!, '')}\n${cls('K2', 'f2', g!, '')}\n` : cls('K1', 'f1', f!, cls('K2', 'f2', g!, '').replace(/^(abstract |export )/, ''));
		const rels: Rel[] = [...(f![2] ? [['CALLS_HTTP', 'f1', "'/f1'"], ['CALLS_HTTP', 'f1', '`/f12`']] as Rel[] : []), ...(g![2] ? (where === 'next' ? [['CALLS_HTTP', 'f2', "'/f2'"], ['CALLS_HTTP', 'f2', '`/f22`']] : [['CALLS_HTTP', 'f1', "'/f2'"], ['CALLS_HTTP', 'f1', '`/f22`']]) as Rel[] : [])];
		ps.push({ path: 'src/c.ts', label: `class with ${f![0]}, ${where} a class with ${g![0]} (${abs.trim() || 'plain'})`, text, rels, from: where === 'next' ? ['f1', 'f2'] : ['f1'], calls: false });
	}
	for (const f of fields) for (const abs of ['', 'abstract ', 'export default ']) for (const order of [0, 1, 2]) {
		const c = `${abs}class K1 {\n  ${f[1]}\n  f1() { this.http.get('/f1'); }\n}`, fn = (n: string): string => `function ${n}() { this.http.get('/${n}'); }`, rels: Rel[] = f[2] ? [['CALLS_HTTP', 'f1', "'/f1'"]] : [];
		ps.push({ path: 'src/c.ts', label: `class with ${f[0]} around functions, order ${order} (${abs.trim()})`, text: [[c, fn('g1'), fn('g2')], [fn('g1'), c, fn('g2')], [fn('g1'), fn('g2'), c]][order]!.join('\n'), rels, from: ['f1', 'g1', 'g2'], calls: false });
		ps.push({ path: 'src/c.ts', label: `a function holding a class with ${f[0]}, order ${order} (${abs.trim()})`, text: `function g1() {\n  this.http.get('/b');\n  ${abs === 'export default ' ? 'const Z = class {' : `${abs}class K1 {`}\n  ${f[1]}\n  m() { this.http.get('/f1'); }\n  }\n  this.http.put('/a');\n}\nfunction g2() { this.http.get('/g2'); }`, rels: f[2] ? [['CALLS_HTTP', 'g1', "'/f1'"]] : [], from: ['g1', 'g2'], calls: false });
	}
	add(ps);
}
// ---- TypeScript messaging: only in files that import a broker's library, only with an object literal naming the topic ----
{
	const imports: [string, boolean][] = [['', false], ["import { Kafka } from 'kafkajs';", true], ['import AWS from "aws-sdk";', true], ["const { Kafka } = require('kafkajs');", true], ["import '@aws-sdk/client-sns';", true], ["import { Subject } from 'rxjs';", false], ["import x from './local.js';", false], ["import {\n  A,\n  B,\n} from 'amqplib';", true], ["const m = await import('nats');", true], ["import { PubSub } from '@google-cloud/pubsub';", true]];
	const PUB = 'PUBLISHES_TO', SUB = 'SUBSCRIBES_TO';
	const calls: [string, [string, string] | null][] = [["producer.send({ topic: 'orders', messages: [] })", [PUB, "'orders'"]], ['producer.send({ messages, topic: TOPIC })', [PUB, 'TOPIC']], ['p.send({ "topic": `t-${env}` })', [PUB, '`t-${env}`']], ['p.send({ messages })', null], ["res.send('x')", null], ['client.send(new PublishCommand({ TopicArn: a }))', null], ["send({ topic: 'x' })", null], ["consumer.subscribe({ topic: 'in', fromBeginning: true })", [SUB, "'in'"]], ['obs.subscribe(v => v)', null], ['sns.publish({ TopicArn: arn, Message: m })', [PUB, 'arn']], ["redis.publish('ch', m)", null], ['sqs.sendMessage({ QueueUrl: q })', [PUB, 'q']], ['sqs.receiveMessage({ QueueUrl: q2 })', [SUB, 'q2']], ['a.b.c.send({ topic: t9 })', [PUB, 't9']], ['p.send()', null], ['p.sendAll({ topic: t })', null], ['p.send({ nested: { topic: t } })', null]];
	const ps: Prog[] = [];
	for (const im of imports) for (const [a, b] of product(calls, calls)) for (const ext of ['ts', 'js']) ps.push({ path: `src/m.${ext}`, label: `${a![0]}; ${b![0]} with ${JSON.stringify(im[0])}`, text: `${im[0]}\nasync function f1() {\n  if (a) { await ${a![0]}; }\n  run0(() => ${b![0]});\n}\n`, rels: im[1] ? [a!, b!].filter(c => c[1]).map(c => [c[1]![0], 'f1', c[1]![1]]) : [], from: ['f1'], calls: false });
	for (const im of imports) for (const c of calls) ps.push({ path: 'src/m.ts', label: `${c[0]} in a method with ${JSON.stringify(im[0])}`, text: `${im[0]}\nclass K1 {\n  async f1() {\n    try { return await ${c[0]}; } catch {}\n  }\n}\nconst f2 = () => 1;\n`, rels: im[1] && c[1] ? [[c[1]![0], 'f1', c[1]![1]]] : [], from: ['f1', 'f2'], calls: false });
	add(ps);
}
// ---- Python ----
{
	const shapes: Shape[] = [H('requests.get("/u")', '"/u"'), H("requests.post(url, json=d)", 'url'), H('requests.put(f"/u/{x}")', 'f"/u/{x}"'), H('requests.delete("/u")', '"/u"'), H('requests.patch("/u")', '"/u"'), H('requests.head("/u")', '"/u"'), H('requests.request("GET", "/u")', '"/u"'), H('httpx.get(BASE + "/u")', 'BASE + "/u"'), H('httpx.request("GET", u)', 'u'), H('urllib.request.urlopen("/u")', '"/u"'), H('aiohttp.request("GET", "/u")', '"/u"'), C('get("/u")'), C('d.get("k")'), C('requests2.get("/u")'), C('self.requests.get("/u")'), C('requests.get()'), C('requests.Session()'), C('my.requests.get("/u")')];
	const ex: [string, string][] = [['', 'X'], ['argument', 'run0(1, X)'], ['await', '(await X)'], ['list', '[X]'], ['dict', '{"k": X}'], ['comprehension', '[X for i in xs]'], ['lambda', '(lambda: X)'], ['ternary', '(X if a else 2)'], ['attribute', 'X.json()'], ['f-string', 'f"{X}"'], ['keyword', 'run0(k=X)'], ['and', '(a and X)'], ['walrus', '(z := X)']];
	const st: [string, string[]][] = [['', ['X']], ['return', ['return X']], ['assign', ['v = X']], ['if', ['if X:', '    pass']], ['body', ['for i in xs:', '    X']], ['with', ['with X as r:', '    pass']], ['try', ['try:', '    X', 'except E:', '    pass']], ['except', ['try:', '    pass', 'except E as e:', '    X']], ['finally', ['try:', '    pass', 'finally:', '    X']], ['while', ['while X:', '    break']], ['nested def', ['def h1():', '    return X']], ['raise', ['raise X']], ['match', ['match a:', '    case 1:', '        X']]];
	const outers: [string, (b: string[]) => string][] = [['def', b => ['async def f1(a, b=1):', '    q = 1', ...b.map(l => '    ' + l)].join('\n')], ['method', b => ['class K1(B):', '    @deco', '    async def f1(self):', '        q = 1', ...b.map(l => '        ' + l)].join('\n')], ['def in a try', b => ['try:', '    async def f1():', ...b.map(l => '        ' + l), '        q = 1', 'except E:', '    pass'].join('\n')]];
	const ps: Prog[] = [];
	for (const [on, of] of outers) for (const s of shapes) for (const [sn, sl] of st) for (const [en, et] of ex) ps.push({ path: 'p/a.py', label: `${s.e} in ${en} ${sn} of a ${on}`, text: of(sl.map(l => put(l, put(et, s.e)))) + '\n\ndef g1():\n    pass\n', rels: s.rels.map(([k, t]) => [k, 'f1', t]), from: ['f1', 'g1'], calls: false });
	// receivers: the last binding in the function decides
	const lines: [string, string | null, boolean | null][] = [['s = requests.Session()', null, true], ['s = httpx.Client()', null, true], ['s = {}', null, false], ['s = other()', null, false], ['s.get("/u%")', '"/u%"', null], ['s.post(url%)', 'url%', null], ['s.close()', null, null], ['t.get("/t%")', null, null], ['run0(lambda: 1)', null, null], ['def h1():\n        s = {}', null, null], ['def h2():\n        s = requests.Session()', null, null]];
	for (let n = 1; n <= (THOROUGH ? 4 : 3); n++) for (const seq of product(...Array.from({ length: n }, () => lines))) {
		const last = seq.filter(l => l[2] !== null).at(-1)?.[2] ?? false;
		ps.push({ path: 'p/b.py', label: seq.map(l => l[0]).join('; '), text: ['def f1():', ...seq.map((l, i) => '    ' + l[0].replace('%', String(i)))].join('\n') + '\n\ndef g1():\n    s.get("/g")\n', rels: last ? seq.flatMap((l, i): Rel[] => l[1] ? [['CALLS_HTTP', 'f1', l[1].replace('%', String(i))]] : []) : [], from: ['f1', 'g1'], calls: false });
	}
	const PUB = 'PUBLISHES_TO', SUB = 'SUBSCRIBES_TO';
	const imports: [string, boolean][] = [['import os', false], ['import pika', true], ['from confluent_kafka import Producer', true], ['import os, pika as p', true], ['from kafka.errors import E', true], ['# import pika', false], ['from google.cloud.pubsub_v1 import X', true]];
	const msgs: [string, [string, string] | null][] = [['p.produce("t", v)', [PUB, '"t"']], ['ch.basic_publish(EX, rk, body)', [PUB, 'EX']], ['ch.basic_consume(q, cb)', [SUB, 'q']], ['produce("t")', null], ['p.send("t", v)', null], ['r.publish("c")', null], ['r.subscribe("c")', null], ['self.ch.produce(f"t{x}")', [PUB, 'f"t{x}"']], ['p.produce()', null]];
	for (const im of imports) for (const [a, b] of product(msgs, msgs)) ps.push({ path: 'p/m.py', label: `${a![0]}; ${b![0]} with ${im[0]}`, text: `${im[0]}\n\ndef f1():\n    ${a![0]}\n    if x:\n        v = [${b![0]}]\n`, rels: im[1] ? [a!, b!].filter(c => c[1]).map(c => [c[1]![0], 'f1', c[1]![1]]) : [], from: ['f1'], calls: false });
	add(ps);
}
// ---- Go ----
{
	const shapes: Shape[] = [H('http.Get("/u")', '"/u"'), H('http.Head(u)', 'u'), H('http.Post("/u", "t", b)', '"/u"'), H('http.PostForm(fmt.Sprintf("/u/%d", x), v)', 'fmt.Sprintf("/u/%d", x)'), H('http.NewRequest("GET", "/u", nil)', '"/u"'), H('http.NewRequestWithContext(ctx, "GET", base+"/u", nil)', 'base+"/u"'), C('client.Get("/u")'), C('Get("/u")'), C('http.Error(w, "x", 1)'), C('http.NewRequest("GET")'), C('my.http.Get("/u")')];
	const ex: [string, string][] = [['', 'X'], ['argument', 'run(1, X)'], ['func', 'func() int { X; return 1 }()'], ['slice', '[]any{X}'], ['struct', 'T{A: X}'], ['selector', 'X.Body'], ['paren', '(X)']];
	const st: [string, string][] = [['', '_ = X'], ['return', 'return X'], ['assign', 'v, err := X'], ['if', 'if v := X; v != nil {\n\t}'], ['body', 'for i := range xs {\n\t\t_ = X\n\t}'], ['go', 'go run(X)'], ['defer', 'defer run(X)'], ['switch', 'switch {\n\tcase a:\n\t\t_ = X\n\t}'], ['select', 'select {\n\tcase c <- X:\n\t}'], ['closure', 'f := func() {\n\t\t_ = X\n\t}\n\tf()'], ['var', 'var v = X']];
	const outers: [string, (b: string) => string][] = [['func', b => `func f1(a int) any {\n\tq := 1\n\tuse(q)\n\t${b}\n\tuse(q)\n}`], ['method', b => `type S1 struct{}\n\nfunc (s *S1) f1() any {\n\tq := 1\n\tuse(q)\n\t${b}\n\tuse(q)\n}`]];
	const ps: Prog[] = [];
	for (const [on, of] of outers) for (const s of shapes) for (const [sn, sl] of st) for (const [en, et] of ex) ps.push({ path: 'g/a.go', label: `${s.e} in ${en} ${sn} of a ${on}`, text: `package x\n\nimport "net/http"\n\n${of(put(sl, put(et, s.e)))}\n\nfunc g1() {}\n`, rels: s.rels.map(([k, t]) => [k, 'f1', t]), from: ['f1', 'g1'], calls: false });
	const imports: [string, boolean][] = [['import "fmt"', false], ['import "github.com/nats-io/nats.go"', true], ['import (\n\t"fmt"\n\tn "github.com/nats-io/nats.go"\n)', true], ['import "cloud.google.com/go/pubsub"', true], ['import k "github.com/segmentio/kafka-go"', true], ['', false]];
	const msgs: [string, [string, string] | null][] = [['nc.Publish("s", d)', ['PUBLISHES_TO', '"s"']], ['nc.Subscribe(subj, cb)', ['SUBSCRIBES_TO', 'subj']], ['Publish("s")', null], ['nc.PublishMsg(m)', null], ['a.b.Publish(x.Y)', ['PUBLISHES_TO', 'x.Y']], ['nc.Publish()', null]];
	for (const im of imports) for (const [a, b] of product(msgs, msgs)) ps.push({ path: 'g/m.go', label: `${a![0]}; ${b![0]} with ${im[0]}`, text: `package x\n\n${im[0]}\n\nfunc f1() {\n\t_ = ${a![0]}\n\tgo func() {\n\t\t_ = ${b![0]}\n\t}()\n}\n`, rels: im[1] ? [a!, b!].filter(c => c[1]).map(c => [c[1]![0], 'f1', c[1]![1]]) : [], from: ['f1'], calls: false });
	add(ps);
}
// ---- Java and Scala ----
{
	type J = { e: string; calls: string[]; http?: string; pub?: string };
	const shapes: J[] = [{ e: 'foo()', calls: ['foo'] }, { e: 'this.bar(1)', calls: ['this.bar'] }, { e: 'svc.run(a)', calls: ['svc.run'] }, { e: 'a.b().c()', calls: ['a.b().c', 'a.b'] }, { e: 'new Klass(1)', calls: ['new Klass'] }, { e: 'new Box<String>(1)', calls: ['new Box'] }, { e: 'rest.getForObject("/u", T.class)', calls: ['rest.getForObject'], http: '"/u"' }, { e: 'rest.exchange(url, m)', calls: ['rest.exchange'], http: 'url' }, { e: 'b.uri(URI.create("/u"))', calls: ['b.uri', 'URI.create'], http: 'URI.create("/u")' }, { e: 'rb.url(base + "/u")', calls: ['rb.url'], http: 'base + "/u"' }, { e: 'r.postForEntity("/u", b, T.class)', calls: ['r.postForEntity'], http: '"/u"' }, { e: 'x.getUrl("/u")', calls: ['x.getUrl'] }, { e: 'rb.url()', calls: ['rb.url'] }, { e: 't.convertAndSend("q", m)', calls: ['t.convertAndSend'], pub: '"q"' }, { e: 'convertAndSend("q", m)', calls: ['convertAndSend'] }, { e: 'kafka.send("q", m)', calls: ['kafka.send'] }];
	const ex: [string, string, string[]][] = [['', 'X', []], ['argument', 'run(1, X)', ['run']], ['lambda', 'run(() -> X)', ['run']], ['block lambda', 'run(q -> { use(X); })', ['run', 'use']], ['ternary', '(a ? X : null)', []], ['cast', '(T) X', []], ['receiver', 'Y.X', []], ['anonymous class', 'new R() { public void go() { use(X); } }', ['new R', 'use']], ['new argument', 'new Klass2(X)', ['new Klass2']], ['array', 'new Object[] { X }', []]];
	const st: [string, string][] = [['', 'var v = X;'], ['return', 'return X;'], ['if', 'if (X != null) { y = 1; }'], ['body', 'for (int i = 0; i < 2; i++) { y = X; }'], ['each', 'for (var i : X) { }'], ['try', 'try { y = X; } finally { }'], ['catch', 'try { } catch (E e) { y = X; }'], ['resource', 'try (var r = X) { }'], ['switch', 'switch (a) { case 1: y = X; break; default: }'], ['throw', 'throw X;'], ['while', 'while (X == null) { }'], ['sync', 'synchronized (this) { y = X; }'], ['assign', 'this.f = X;']];
	const imports: [string, boolean, boolean][] = [['', false, false], ['import org.springframework.web.client.RestTemplate;', true, false], ['import okhttp3.*;', true, false], ['import java.util.List;', false, false], ['import org.springframework.jms.core.JmsTemplate;', false, true], ['import static java.net.http.HttpRequest.newBuilder;\nimport com.rabbitmq.client.Channel;', true, true]];
	const outers: [string, (b: string) => string, string][] = [['method', b => `public class K1 {\n  Object f1(int a) {\n    int q = 1;\n    ${b}\n  }\n  void g1() {}\n}`, 'K1.f1'], ['constructor', b => `class K1 {\n  K1() {\n    ${b.startsWith('return') ? `var w = ${b.slice(7)}` : b}\n  }\n  void g1() {}\n}`, 'K1.<init>'], ['static method', b => `class K1 extends B1 {\n  static <T> T f1() {\n    ${b}\n  }\n  void g1() {}\n}`, 'K1.f1'], ['default method', b => `interface K1 {\n  default Object f1() {\n    ${b}\n  }\n  void g1();\n}`, 'K1.f1'], ['lambda field', b => `class K1 {\n  Fn f1 = () -> {\n    int q = 1;\n    ${b}\n  };\n  void g1() {}\n}`, 'K1.f1$lambda'], ['enum method', b => `enum K1 {\n  A;\n  Object f1() {\n    ${b}\n  }\n  void g1() {}\n}`, 'K1.f1']];
	const ps: Prog[] = []; let n = 0;
	for (const s of shapes) for (const [sn, sl] of st) for (const [en, et, ec] of ex) for (const im of imports) {
		if (en === 'receiver' || (!THOROUGH && n++ % 2 && im[0] === 'import java.util.List;')) continue;
		const [on, of, who] = outers[n++ % outers.length]!;
		ps.push({ path: 'j/K.java', label: `${s.e} in ${en} ${sn} of a ${on} with ${JSON.stringify(im[0])}`, text: `package q;\n${im[0]}\n\n${of(put(sl, put(et, s.e)))}\n`, rels: [...[...s.calls, ...ec].map((t): Rel => ['CALLS', who, t]), ...(s.http && im[1] ? [['CALLS_HTTP', who, s.http] as Rel] : []), ...(s.pub && im[2] ? [['PUBLISHES_TO', who, s.pub] as Rel] : [])], from: [who, 'K1.g1'], calls: true });
	}
	const sh: J[] = [{ e: 'foo()', calls: ['foo'] }, { e: 'svc.run(a)', calls: ['svc.run'] }, { e: 'a.b().c(1)', calls: ['a.b().c', 'a.b'] }, { e: 'ws.url("/u")', calls: ['ws.url'], http: '"/u"' }, { e: 'req.uri(base + "/u")', calls: ['req.uri'], http: 'base + "/u"' }, { e: 'x.urlOf("/u")', calls: ['x.urlOf'] }, { e: 'ws.url()', calls: ['ws.url'] }, { e: 'p.produce("t", 1)', calls: ['p.produce'], pub: '"t"' }, { e: 'produce("t")', calls: ['produce'] }, { e: 'p.send("t")', calls: ['p.send'] }];
	const sx: [string, string, string[]][] = [['', 'X', []], ['argument', 'run(1, X)', ['run']], ['lambda', 'run(q => X)', ['run']], ['block', 'run { X }', ['run']], ['if', '(if (a) X else 2)', []], ['tuple', '(X, 1)', []], ['match', '(a match { case 1 => X })', []], ['for', '(for (i <- X) yield i)', []], ['new argument', 'new Klass2(X)', []], ['try', '(try X catch { case e: E => 1 })', []]];
	const si: [string, boolean, boolean][] = [['', false, false], ['import play.api.libs.ws.WSClient', true, false], ['import sttp.client3._', true, false], ['import scala.util.Try', false, false], ['import fs2.kafka.{Producer, X => Y}', false, true], ['import akka.http.scaladsl.Http\nimport org.apache.kafka.clients.K', true, true]];
	const so: [string, (b: string) => string, string][] = [['method', b => `class K1 {\n  def f1(a: Int): Any = ${b}\n  def g1 = 1\n}`, 'K1.f1'], ['block method', b => `object K1 extends B1 {\n  def f1() = {\n    val v = ${b}\n    v\n  }\n  def g1 = 1\n}`, 'K1.f1'], ['trait method', b => `trait K1 {\n  override def f1[T](x: T): T = {\n    ${b}\n  }\n  def g1 = 1\n}`, 'K1.f1'], ['function', b => `def f1(a: Int) = ${b}\n\nclass K1 {\n  def g1 = 1\n}`, 'f1']];
	for (const s of sh) for (const [en, et, ec] of sx) for (const [e2, et2, ec2] of sx) for (const im of si) for (const [on, of, who] of so) {
		if (!THOROUGH && n++ % 2) continue;
		ps.push({ path: 's/K.scala', label: `${s.e} in ${en} in ${e2} of a ${on} with ${JSON.stringify(im[0])}`, text: `package q\n${im[0]}\n\n${of(put(et2, put(et, s.e)))}\n`, rels: [...[...s.calls, ...ec, ...ec2].map((t): Rel => ['CALLS', who, t]), ...(s.http && im[1] ? [['CALLS_HTTP', who, s.http] as Rel] : []), ...(s.pub && im[2] ? [['PUBLISHES_TO', who, s.pub] as Rel] : [])], from: [who, 'K1.g1'], calls: true });
	}
	add(ps);
}

main(async () => {
	await chk.sharded(async mine => {
		groups.forEach((g, i) => { if (!mine(i)) return; for (const p of g) check(p, ''); for (const p of [...g].reverse()) check(p, ' (after other files)'); });
	});
	chk.traces = chk.evaluations;
	chk.note(`${groups.reduce((a, g) => a + g.length, 0)} programs, each parsed twice in opposite orders`);
	chk.finish();
});
