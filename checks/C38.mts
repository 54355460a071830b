// C38: parsing a source file yields exactly the declarations it contains, where they are, what contains them, and what the file imports and its classes extend.
import { Check, main, THOROUGH, repo, sequences, product, subsets } from '../lib/mc.mts';
import { Builder, P, compose, judge, type Piece, type Handle } from '../lib/parsegram.mts';

const chk = new Check('C38', 'exploration');
chk.rule = 'programs are built from a small grammar per language together with what they declare; the real parser must report exactly that: kind, name, lines, exported/async/abstract flags, owner, imports, parents';
const RELS = ['DEFINES', 'IMPORTS', 'INHERITS', 'IMPLEMENTS'];
const ALLK = ['function', 'class', 'method', 'interface', 'type', 'variable', 'module', 'section', 'document', 'config'];
type G = { parse: (p: string, s: string, r: string, id: number) => any };
const { getParser, supportedExtensions } = await repo('src/indexer/parser/registry.ts');
for (const m of ['typescript', 'python', 'go', 'java', 'scala']) await repo(`src/indexer/parser/${m}.ts`);
const ART = await repo('src/indexer/parser/artifact.ts');

/** members of a class: each adds lines inside the class and what they declare */
type Member = { id: string; src: string[]; exp: (b: Builder, u: (s: string) => string, cls: Handle, q: string) => void };
const M = (id: string, src: string, exp: Member['exp'] = () => {}): Member => ({ id, src: src.split('\n'), exp });
/** a class-like piece: header, members (indented), closing lines */
function classPiece(id: string, head: string[], tail: string[], members: Member[], indent: string, exp: (b: Builder, u: (s: string) => string, last: number) => [Handle, string], empty: string[] = []): Piece {
	const src = [...head], at: number[] = [];
	members.forEach((m, i) => { at.push(src.length); src.push(...m.src.map(l => indent + l.replaceAll('%', String(i + 1)))); });
	if (!members.length) src.push(...empty);
	src.push(...tail);
	return {
		id: `${id}{${members.map(m => m.id).join(',')}}`, src,
		exp: (b, u) => {
			const base = b.base, [h, q] = exp(b, u, src.length);
			members.forEach((m, i) => { b.base = base + at[i]!; m.exp(b, s => u(s.replaceAll('%', String(i + 1))), h, q); });
			b.base = base;
		},
	};
}

// ---- TypeScript / JavaScript ----
const fn = (id: string, src: string, attrs: Record<string, unknown>, a = 1, z?: number, name = 'f$'): Piece => P(id, src, (b, u) => b.def('file', b.ent('function', u(name), a, z ?? src.split('\n').length, attrs)));
const X = { isExported: true }, N = { isExported: false }, A = { isAsync: true }, S = { isAsync: false };
const jsFns: Piece[] = [
	fn('function', 'function f$(a, b = 1) {\n  return a;\n}', { ...N, ...S }),
	fn('export function', 'export function f$() { return 1; }', { ...X, ...S }),
	fn('async function', 'async function f$() {\n\n}', { ...N, ...A }),
	fn('export async function', 'export async function f$({ a }, ...rest) {\n  return await a;\n}', { ...X, ...A }),
	fn('export default function', 'export default function f$() {}', X),
	fn('generator', 'function* f$() {\n  yield 1;\n}', { ...N, ...S }),
	fn('export async generator', 'export async function* f$() {}', { ...X, ...A }),
	fn('documented function', '/**\n * function zz() {}\n */\nexport function f$() {\n}', X, 4),
	fn('const arrow', 'const f$ = () => 1;', { ...N, ...S }),
	fn('export const arrow', 'export const f$ = (a) => {\n  return a;\n};', { ...X, ...S }),
	fn('const async arrow', 'const f$ = async (x) => {\n};', { ...N, ...A }),
	fn('let function', 'let f$ = function () {\n  return 2;\n};', { ...N, ...S }),
	fn('export async function expression', 'export const f$ = async function named() {};', { ...X, ...A }),
	fn('var arrow', 'var f$ = x => x;', N),
	fn('generator expression', 'const f$ = function* () { yield 1; };', { ...N, ...S }),
	P('two arrows', 'export const f$ = () => 1, g$ = async () => 2, v$ = 3;', (b, u) => { b.def('file', b.ent('function', u('f$'), 1, 1, { ...X, ...S })); b.def('file', b.ent('function', u('g$'), 1, 1, { ...X, ...A })); }),
	P('nested function', 'function f$() {\n  function g$() {\n    return 1;\n  }\n  if (g$()) {\n    const h$ = () => 2;\n  }\n}', (b, u) => { for (const [n, a, z] of [['f$', 1, 8], ['g$', 2, 4], ['h$', 6, 6]] as const) b.def('file', b.ent('function', u(n), a, z, N)); }),
	P('function in a block', 'if (globalThis.x$) {\n  function f$() {\n  }\n}', (b, u) => b.def('file', b.ent('function', u('f$'), 2, 3, N))),
];
const jsNoise: Piece[] = [
	P('variable', 'export const v$ = 5;'), P('string', 'const s$ = "function zz() {}";'), P('template', 'const s$ = `\nclass Zz {}\nfunction zz() {}\n`;'),
	P('comment', '// class Zz {}\n/* function zz() {} */'), P('call', 'run$(1);'), P('callback', 'run$(() => 1);'), P('regex', 'const r$ = /function zz/;'), P('export list', 'const w$ = 1;\nexport { w$ };'),
	P('destructuring', 'const { d$, e$ } = globalThis;'), P('number of a name', 'const o$ = { key: 1 };'),
];
const imp = (id: string, src: string, name: string, rel = false): Piece => P(id, src, (b, u) => { if (rel) b.raw('IMPORTS', 'file', u(name)); else b.mod('file', u(name)); }, true);
const jsImports: Piece[] = [
	imp('default import', "import x$ from 'mod$';", 'mod$'), imp('named import', 'import { a$, b as c$ } from "@scope/pkg$";', '@scope/pkg$'), imp('namespace import', "import * as n$ from 'lib/sub$/deep';", 'lib/sub$/deep'),
	imp('bare import', "import 'side$';", 'side$'), imp('node import', "import y$ from 'node:fs$';", 'node:fs$'), imp('relative import', "import { z$ } from './rel$.js';", './rel$.js', true), imp('parent import', "import q$ from '../../up$';", '../../up$', true),
	imp('multi-line import', "import {\n  k$,\n  l$,\n} from './many$.js';", './many$.js', true), P('same module twice', "import s$ from 'same';\nimport { t$ } from 'same';", b => b.mod('file', 'same'), true),
	imp('relative side effect', "import './init$.js';", './init$.js', true),
];
const jsMembers: Member[] = [
	M('method', 'm%(a) {\n  return a;\n}', (b, u, c) => { const h = b.ent('method', u('m%'), 1, 3, S); b.def('file', h); b.def(c, h); }),
	M('async method', 'async m%() {}', (b, u, c) => { const h = b.ent('method', u('m%'), 1, 1, A); b.def('file', h); b.def(c, h); }),
	M('static method', 'static m%() {}', (b, u, c) => { const h = b.ent('method', u('m%'), 1, 1); b.def('file', h); b.def(c, h); }),
	M('getter', 'get m%() {\n  return 1;\n}', (b, u, c) => { const h = b.ent('method', u('m%'), 1, 3, S); b.def('file', h); b.def(c, h); }),
	M('generator method', '*m%() {}', (b, u, c) => { const h = b.ent('method', u('m%'), 1, 1); b.def('file', h); b.def(c, h); }),
	M('constructor', 'constructor(a) {\n}'), M('field', 'x% = 1;'), M('comment', '// m() {}'),
];
const tsMembers: Member[] = [
	M('private method', 'private m%(a: number): string {\n  return String(a);\n}', (b, u, c) => { const h = b.ent('method', u('m%'), 1, 3, S); b.def('file', h); b.def(c, h); }),
	M('public static async', 'public static async m%<T>(x: T): Promise<T> { return x; }', (b, u, c) => { const h = b.ent('method', u('m%'), 1, 1, A); b.def('file', h); b.def(c, h); }),
	M('readonly field', 'private readonly x%: Map<string, number> = new Map();'), M('declared field', 'y%?: string;'),
];
type Heritage = [string, string[], string[]];
const jsHeads: [string, Heritage, Record<string, unknown>][] = [['class C$', ['', [], []], N], ['export class C$', ['', [], []], X], ['export default class C$', ['', [], []], X], ['class C$', [' extends Base$', ['Base$'], []], N], ['export class C$', [' extends Base$', ['Base$'], []], X]];
const tsHeads: [string, Heritage, Record<string, unknown>][] = [
	['class C$<T>', [' implements I$', [], ['I$']], N], ['export class C$', [' implements I$<string>, J$', [], ['I$', 'J$']], X], ['export class C$', [' extends Base$ implements I$', ['Base$'], ['I$']], X],
	['export class C$', [' extends Base$<number> implements I$', ['Base$'], ['I$']], X], ['export abstract class C$', ['', [], []], X], ['abstract class C$', [' extends Base$', ['Base$'], []], N],
];
const jsClass = (h: [string, Heritage, Record<string, unknown>], ms: Member[]): Piece => classPiece(`${h[0]}${h[1][0]}`, [`${h[0]}${h[1][0]} {`], ['}'], ms, '  ', (b, u, last) => {
	const c = b.ent('class', u('C$'), 1, last, h[2]); b.def('file', c);
	for (const p of h[1][1]) b.raw('INHERITS', c, u(p)); for (const p of h[1][2]) b.raw('IMPLEMENTS', c, u(p));
	return [c, u('C$')];
});
const tsOnly: Piece[] = [
	P('interface', 'interface I$ {\n  a: string;\n  m(): void;\n}', (b, u) => b.def('file', b.ent('interface', u('I$'), 1, 4, N))), P('export interface', 'export interface I$<T> { a: T }', (b, u) => b.def('file', b.ent('interface', u('I$'), 1, 1, X))),
	P('type', "type T$ = 'a' | 'b';", (b, u) => b.def('file', b.ent('type', u('T$'), 1, 1, N))), P('export type', 'export type T$<K> =\n  | { k: K }\n  | null;', (b, u) => b.def('file', b.ent('type', u('T$'), 1, 3, X))),
	imp('import type', "import type { W$ } from './w$.js';", './w$.js', true), fn('typed function', 'export function f$<T extends object>(a: T, b?: string): Promise<T> {\n  return Promise.resolve(a);\n}', X),
	fn('typed arrow', 'export const f$ = async <T,>(a: T): Promise<T> => a;', { ...X, ...A }),
];

// ---- Python ----
const pd = (id: string, src: string, kind: string, a: number | number[], z: number, attrs: Record<string, unknown> = {}, name = 'f$'): Piece => P(id, src, (b, u) => b.def('file', b.ent(kind, u(name), a, z, attrs)));
const pyPieces: Piece[] = [
	pd('def', 'def f$(a, b=1):\n    return a', 'function', 1, 2, { ...X, ...S }), pd('async def', 'async def f$():\n    pass', 'function', 1, 2, { ...X, ...A }),
	pd('decorated def', '@deco(1)\n@other\ndef f$():\n    pass', 'function', [1, 3], 4, X), pd('typed def', 'def f$(a: int, *args, **kw) -> dict[str, int]:\n    """def zz(): pass"""\n    return {}', 'function', 1, 3, X),
	pd('if def', 'if COND$:\n    def f$():\n        pass\n', 'function', 2, 3), pd('try def', 'try:\n    import zz\nexcept ImportError:\n    def f$():\n        pass', 'function', 4, 5),
	P('else class', 'if COND$:\n    pass\nelse:\n    class K$(Base$):\n        pass', (b, u) => { const c = b.ent('class', u('K$'), 4, 5); b.def('file', c); b.raw('INHERITS', c, u('Base$')); }),
	P('string', 's$ = """\ndef zz():\n    pass\n"""'), P('assignment', 'v$ = lambda x: x'), P('comment', '# def zz(): pass'), P('main', 'if __name__ == "__main__":\n    run$()'), P('call', 'run$()'),
	imp('import', 'import mod$', 'mod$'), P('same twice', 'import same\nfrom same import x', b => b.mod('file', 'same')), imp('import dotted', 'import pkg$.sub.deep', 'pkg$.sub.deep'), imp('import as', 'import lib$ as l$', 'lib$'), P('import many', 'import a$, b$.c as d$', (b, u) => { b.mod('file', u('a$')); b.mod('file', u('b$.c')); }),
	imp('from', 'from mod$.x import a, b as c', 'mod$.x'), imp('from star', 'from star$ import *', 'star$'), imp('from many lines', 'from many$ import (\n    a,\n    b,\n)', 'many$'), imp('relative', 'from .rel$ import a', '.rel$', true), imp('parent', 'from ..up$.x import b', '..up$.x', true),
	imp('if import', 'if TYPE_CHECKING:\n    from typed$ import T', 'typed$'), P('try import', 'try:\n    import fast$\nexcept ImportError:\n    from slow$ import x', (b, u) => { b.mod('file', u('fast$')); b.mod('file', u('slow$')); }),
];
pyPieces.find(p => p.id === 'try def')!.exp = (b, u) => { b.mod('file', 'zz'); b.def('file', b.ent('function', u('f$'), 4, 5)); };
const pyM = (id: string, src: string, a: number | number[], z: number, attrs: Record<string, unknown> = {}): Member => M(id, src, (b, u, c) => { const h = b.ent('method', u('m%'), a, z, attrs); b.def('file', h); b.def(c, h); });
const pyMembers: Member[] = [
	pyM('method', 'def m%(self):\n    return 1', 1, 2, S), pyM('async method', 'async def m%(self, a=1):\n    pass', 1, 2, A), pyM('property', '@property\ndef m%(self):\n    return 2', [1, 2], 3), pyM('static', '@staticmethod\n@other\ndef m%(): pass', [1, 3], 3),
	M('field', 'x% = 1'), M('docstring', '"""def zz(): pass"""'),
];
const pyBases: [string, string[]][] = [['', []], ['()', []], ['(A$)', ['A$']], ['(A$, B$)', ['A$', 'B$']], ['(A$, metaclass=Meta$)', ['A$']], ['(Generic[T$])', ['Generic']], ['(object)', []], ['(mod$.Base)', ['mod$.Base']]];
const pyClass = (bases: [string, string[]], ms: Member[], deco = false): Piece => classPiece(`${deco ? '@' : ''}class${bases[0]}`, [...(deco ? ['@dataclass'] : []), `class C$${bases[0]}:`], [], ms, '    ', (b, u, last) => {
	const c = b.ent('class', u('C$'), deco ? [1, 2] : 1, last, X); b.def('file', c); for (const p of bases[1]) b.raw('INHERITS', c, u(p)); return [c, u('C$')];
}, ['    pass']);

// ---- Go ----
const goPieces: Piece[] = [
	P('func', 'func f$(a int) error {\n\treturn nil\n}', (b, u) => b.def('file', b.ent('function', u('f$'), 1, 3, N))), P('exported func', 'func F$() {}', (b, u) => b.def('file', b.ent('function', u('F$'), 1, 1, X))),
	P('generic func', 'func F$[T any](x T) (T, error) {\n\tg := func() {}\n\tg()\n\treturn x, nil\n}', (b, u) => b.def('file', b.ent('function', u('F$'), 1, 5, X))),
	P('interface', 'type I$ interface {\n\tRun(a int) error\n\tStop()\n}', (b, u) => b.def('file', b.ent('interface', u('I$'), 1, 4, { ...X, signature: 'Run(a int) error | Stop()' }))), P('small interface', 'type i$ interface{ Get() (int, error) }', (b, u) => b.def('file', b.ent('interface', u('i$'), 1, 1, { ...N, signature: 'Get() (int, error)' }))),
	P('named type', 'type T$ int', (b, u) => b.def('file', b.ent('type', u('T$'), 1, 1, X))), P('func type', 'type t$ func(int) string', (b, u) => b.def('file', b.ent('type', u('t$'), 1, 1, N))), P('alias', 'type T$ = map[string]int', (b, u) => b.def('file', b.ent('type', u('T$'), 1, 1, X))),
	P('type group', 'type (\n\tA$ struct{ x int }\n\tb$ interface {\n\t\tM()\n\t}\n\tC$ []string\n\td$ = A$\n)', (b, u) => { b.def('file', b.ent('class', u('A$'), 2, 2, X)); b.def('file', b.ent('interface', u('b$'), 3, 5, N)); b.def('file', b.ent('type', u('C$'), 6, 6, X)); b.def('file', b.ent('type', u('d$'), 7, 7, N)); }),
	P('const', 'const K$ = 1'), P('var func', 'var v$ = func() int { return 1 }'), P('comment', '// func zz() {}\n/* type Zz struct{} */'), P('raw string', 'var s$ = `\nfunc zz() {}\n`'), P('var group', 'var (\n\tw$ = 1\n\tx$ string\n)'),
	...['', '*'].map(star => P(`struct with ${star}methods`, `type S$ struct {\n\tx int\n}\n\nfunc (s ${star}S$) Run(a int) error {\n\treturn nil\n}\n\nfunc (${star}S$) stop() {}`, (b, u) => {
		const c = b.ent('class', u('S$'), 1, 3, X); b.def('file', c); const r = b.ent('method', 'Run', 5, 7, X), s = b.ent('method', 'stop', 9, 9, N); for (const h of [r, s]) { b.def('file', h); b.def(c, h); }
	})),
	P('generic struct', 'type g$[T any] struct {\n\tv T\n}\n\nfunc (g *g$[T]) Get() T { return g.v }', (b, u) => { const c = b.ent('class', u('g$'), 1, 3, N); b.def('file', c); const h = b.ent('method', 'Get', 5, 5, X); b.def('file', h); b.def(c, h); }),
	P('methods before the struct', 'func (e E$) Do() {}\n\ntype E$ struct{}', (b, u) => { const c = b.ent('class', u('E$'), 3, 3, X); b.def('file', c); const h = b.ent('method', 'Do', 1, 1, X); b.def('file', h); b.def(c, h); }),
];
const goImports: Piece[] = [P('no import', ''), P('single', 'import "fmt$"', (b, u) => b.mod('file', u('fmt$'))), P('alias', 'import al "x.org/y$/z"', (b, u) => b.mod('file', u('x.org/y$/z'))), P('blank', 'import _ "x.org/side$"', (b, u) => b.mod('file', u('x.org/side$'))), P('dot', 'import . "dot$"', (b, u) => b.mod('file', u('dot$'))),
	P('backquote', 'import `raw$`', (b, u) => b.mod('file', u('raw$'))), P('group', 'import (\n\t"a$"\n\tb "x/b$"\n\n\t// "zz"\n\t_ "c$"\n)', (b, u) => { for (const m of ['a$', 'x/b$', 'c$']) b.mod('file', u(m)); }), P('empty group', 'import ()'), P('same twice', 'import "same"\nimport s2 "same"', b => b.mod('file', 'same'))];

// ---- Java ----
const AB = { isAbstract: true }, NA = { isAbstract: false };
const jm = (id: string, src: string, name: string, z: number, attrs: Record<string, unknown> = {}, kind = 'method'): Member => M(id, src, (b, u, c, q) => b.def(c, b.ent(kind, `${q}.${u(name)}`, 1, z, attrs)));
const javaMembers: Member[] = [
	jm('method', 'public int m%(int a) {\n  return a;\n}', 'm%', 3, { ...X, ...NA, signature: /^public int m\d\(int a\)$/ }), jm('private method', 'private void m%() {}', 'm%', 1, { ...N, signature: /^private void m\d\(\)$/ }), jm('annotated method', '@Override\npublic String m%() { return ""; }', 'm%', 2, { ...X, signature: /^@Override public String m\d\(\)$/ }),
	jm('generic method', 'static <T> List<T> m%(T... xs) { return null; }', 'm%', 1, { ...N, signature: /^static .*m\d\(T\.\.\. xs\)$/ }), jm('field', 'private final int f% = 1;', 'f%', 1, { ...N, signature: /^private final int f\d$/ }, 'variable'), jm('public field', 'public static String f%;', 'f%', 1, X, 'variable'),
	M('two fields', 'int p%, q% = 2;', (b, u, c, q) => { for (const n of ['p%', 'q%']) b.def(c, b.ent('variable', `${q}.${u(n)}`, 1, 1, N)); }),
	M('lambda field', 'Runnable r% = () -> {\n};', (b, u, c, q) => { b.def(c, b.ent('variable', `${q}.${u('r%')}`, 1, 2)); b.def(c, b.ent('function', `${q}.${u('r%')}$lambda`, 1, 2)); }),
	M('comment', '// void zz() {}'), M('static block', 'static { int zz = 1; }'),
	M('nested class', 'static class D% extends Up {\n  void n() {}\n}', (b, u, c, q) => { const d = b.ent('class', `${q}.${u('D%')}`, 1, 3); b.def(c, d); b.raw('INHERITS', d, 'Up'); b.def(d, b.ent('method', `${q}.${u('D%')}.n`, 2, 2)); }),
	M('nested interface', 'interface E% {\n  void n();\n}', (b, u, c, q) => { const d = b.ent('interface', `${q}.${u('E%')}`, 1, 3, AB); b.def(c, d); b.def(d, b.ent('method', `${q}.${u('E%')}.n`, 2, 2)); }),
	M('nested enum', 'enum G% { A, B }', (b, u, c, q) => b.def(c, b.ent('class', `${q}.${u('G%')}`, 1, 1, { signature: /enum G\d$/ }))), M('nested record', 'record H%(int x) {}', (b, u, c, q) => b.def(c, b.ent('class', `${q}.${u('H%')}`, 1, 1, { signature: /record H\d$/ }))),
];
const javaCtor: Member = M('constructor', 'public C$(int a) {\n}', (b, u, c, q) => b.def(c, b.ent('method', `${q}.<init>`, 1, 2, X)));
const abstractMember: Member = jm('abstract method', 'protected abstract void m%();', 'm%', 1, { ...N, ...AB });
type JH = [string, string, Record<string, unknown>, string[], string[], string?];
const javaHeads: JH[] = [
	['class C$', 'class', { ...N, ...NA, signature: /^class C\d$/ }, [], []], ['public class C$', 'class', { ...X, signature: /^public class C\d$/ }, [], []], ['public abstract class C$ extends Base$', 'class', { ...X, ...AB }, ['Base$'], []], ['@Service\nfinal class C$<T> extends Base$<T> implements I$, J$<String>', 'class', { ...N, signature: /^@Service final class C\d$/ }, ['Base$'], ['I$', 'J$']],
	['class C$ implements I$', 'class', {}, [], ['I$']], ['class C$ extends Object', 'class', {}, [], []], ['public record C$(int a, String b) implements I$', 'class', { ...X, signature: /^public record C\d$/ }, [], ['I$']],
	['enum C$', 'class', { ...N, signature: /^enum C\d$/ }, [], [], 'A, B;'], ['public enum C$ implements I$', 'class', X, [], ['I$'], 'ONE(1), TWO;'], ['class C$ extends a.b.Base$', 'class', {}, ['a.b.Base$'], []],
	['interface C$', 'interface', { ...N, ...AB, signature: /^interface C\d$/ }, [], []], ['public interface C$<T> extends I$, J$<T>', 'interface', { ...X, ...AB }, ['I$', 'J$'], []], ['sealed interface C$ permits K$', 'interface', AB, [], []],
];
const javaClass = (h: JH, ms: Member[]): Piece => { const head = h[0].split('\n'); head[head.length - 1] += ' {'; if (h[5]) head.push(`  ${h[5]}`); return classPiece(h[0].replace('\n', ' '), head, ['}'], ms, '  ', (b, u, last) => {
	const c = b.ent(h[1], u('C$'), 1, last, h[2]); b.def('file', c); for (const p of h[3]) b.raw('INHERITS', c, u(p)); for (const p of h[4]) b.raw('IMPLEMENTS', c, u(p)); return [c, u('C$')];
}); };
const javaImports: Piece[] = [P('no import', ''), imp('import', 'import a.b$.C;', 'a.b$.C'), imp('wildcard', 'import a.b$.*;', 'a.b$.*'), imp('static', 'import static a.b$.C.m;', 'a.b$.C.m'), imp('static wildcard', 'import static a.b$.C.*;', 'a.b$.C.*'), P('same twice', 'import a.Same;\nimport a.Same;', b => b.mod('file', 'a.Same'))];
const annoType: Piece = P('annotation type', 'public @interface An$ {\n}', (b, u) => b.def('file', b.ent('class', u('An$'), 1, 2, { ...X, signature: /annotation interface An\d$/ })));

// ---- Scala ----
const sm = (id: string, src: string, name: string, z: number, attrs: Record<string, unknown> = {}, kind = 'method'): Member => M(id, src, (b, u, c, q) => b.def(c, b.ent(kind, `${q}.${u(name)}`, 1, z, attrs)));
const scalaMembers: Member[] = [
	sm('def', 'def m%(a: Int): Int = a', 'm%', 1, { ...X, ...NA, signature: /^def m\d\(a: Int\): Int$/ }), sm('block def', 'def m%(): Unit = {\n  val zz = 1\n}', 'm%', 3, X), sm('private def', 'private def m%[T](x: T)(y: Int): T = x', 'm%', 1, { ...N, signature: /^private def m\d\[T\]\(x: T\)\(y: Int\)/ }), sm('override def', 'override def m%: String = ""', 'm%', 1, { ...X, signature: /^override def m\d/ }),
	sm('abstract def', 'def m%(a: Int): Int', 'm%', 1, { ...X, ...AB }), sm('val', 'val v%: Int = 1', 'v%', 1, { ...X, signature: /^val v\d: Int$/ }, 'variable'), sm('private var', 'private var v% = 2', 'v%', 1, { ...N, signature: /^private var v\d$/ }, 'variable'), sm('lazy val', 'lazy val v% = 3', 'v%', 1, { signature: /^lazy val v\d$/ }, 'variable'),
	sm('type', 'type t% = List[Int]', 't%', 1, { signature: /^type t\d$/ }, 'type'), M('comment', '// def zz = 1'), sm('protected def', 'protected def m%(): Int = 1', 'm%', 1, N),
	M('nested class', 'class D%(x: Int) extends Up {\n  def n = 1\n}', (b, u, c, q) => { const d = b.ent('class', `${q}.${u('D%')}`, 1, 3); b.def(c, d); b.raw('INHERITS', d, 'Up'); b.def(d, b.ent('method', `${q}.${u('D%')}.n`, 2, 2)); }),
	M('nested object', 'object O% {\n  val n = 1\n}', (b, u, c, q) => { const d = b.ent('class', `${q}.${u('O%')}`, 1, 3, { signature: /^object O\d$/ }); b.def(c, d); b.def(d, b.ent('variable', `${q}.${u('O%')}.n`, 2, 2)); }),
];
type SH = [string, string, Record<string, unknown>, string[], string[]];
const scalaHeads: SH[] = [
	['class C$', 'class', { ...X, ...NA, signature: /^class C\d$/ }, [], []], ['case class C$(a: Int, b: String = "x")', 'class', { signature: /^case class C\d$/ }, [], []], ['abstract class C$[T](x: T) extends Base$[T](x) with I$ with J$[T]', 'class', AB, ['Base$'], ['I$', 'J$']], ['private class C$', 'class', N, [], []], ['sealed trait C$', 'interface', { ...AB, signature: /^sealed trait C\d$/ }, [], []],
	['trait C$ extends I$ with J$', 'interface', AB, ['I$', 'J$'], []], ['object C$', 'class', { signature: /^object C\d$/ }, [], []], ['case object C$ extends Base$', 'class', { signature: /^case object C\d$/ }, ['Base$'], []], ['final class C$ extends AnyRef with I$', 'class', { signature: /^final class C\d$/ }, [], ['I$']], ['@deprecated class C$ extends Base$', 'class', { signature: /^@deprecated class C\d$/ }, ['Base$'], []],
];
const scalaClass = (h: SH, ms: Member[]): Piece => classPiece(h[0], [`${h[0]} {`], ['}'], ms, '  ', (b, u, last) => { const c = b.ent(h[1], u('C$'), 1, last, h[2]); b.def('file', c); for (const p of h[3]) b.raw('INHERITS', c, u(p)); for (const p of h[4]) b.raw('IMPLEMENTS', c, u(p)); return [c, u('C$')]; });
const scalaPieces: Piece[] = [
	P('top def', 'def f$(a: Int): Int = a + 1', (b, u) => b.def('file', b.ent('function', u('f$'), 1, 1, X))), P('top val', 'val v$ = 1', (b, u) => b.def('file', b.ent('variable', u('v$'), 1, 1))), P('top type', 'type T$ = Map[String, Int]', (b, u) => b.def('file', b.ent('type', u('T$'), 1, 1))),
	P('companion', 'class K$(x: Int)\n\nobject K$ {\n  def of = 1\n}', (b, u) => { b.def('file', b.ent('class', u('K$'), 1, 1)); }), P('comment', '// class Zz\n/* object Zz */'), P('case class without body', 'case class R$(a: Int)', (b, u) => b.def('file', b.ent('class', u('R$'), 1, 1))),
	imp('import', 'import a.b$.C', 'a.b$.C'), P('group import', 'import a$.{B, C => D}', (b, u) => { b.mod('file', u('a$.B')); b.mod('file', u('a$.C')); }), imp('wildcard import', 'import a.b$._', 'a.b$._'), P('same twice', 'import a.Same\nimport a.{Same => S}', b => b.mod('file', 'a.Same')), P('group with wildcard', 'import g$.{B => C, _}', (b, u) => { b.mod('file', u('g$.B')); b.mod('file', u('g$._')); }),
	P('extension', 'extension (x: Foo$) def bar = 1', (b, u) => b.def('file', b.ent('method', u('Foo$.bar'), 1, 1, { signature: /extension method/ }))), P('given', 'given ord$: Ordering[Int] = null', (b, u) => b.def('file', b.ent('variable', u('ord$'), 1, 1, { signature: /^given ord\d/ }))),
];
scalaPieces.splice(scalaPieces.findIndex(p => p.id === 'companion'), 1); // the class and its companion share a name (and so an id): left to the unit tests

const seqs = <T,>(xs: T[], max: number): T[][] => { const out: T[][] = []; for (let n = 0; n <= max; n++) for (const s of sequences(xs.length, n)) out.push(s.map(i => xs[i]!)); return out; };
const R1 = '/r/one', R2 = '/r/two';
let k = 0;
function run(label: string, path: string, lang: string, prog: { text: string; b: Builder }, kinds = ALLK): void {
	const root = k % 2 ? R2 : R1, id = k % 2 ? 12 : 11, full = `${root}/${path}`, text = k % 7 === 3 ? prog.text.replaceAll('\n', '\r\n') : k % 7 === 5 ? prog.text.slice(0, -1) : prog.text; k++;
	const out = (getParser(full) as G).parse(full, text, root, id);
	const bad = judge(out, prog.b, text, { path: full, repo: root, repoId: id, lang, rels: RELS, kinds });
	chk.evaluations++; chk.nontrivial += prog.b.ents.length > 1 ? 1 : 0;
	if (bad) chk.violation(`${path} ${label}`, `${path}: ${label}: ${bad}`, { source: text.split('\n'), path });
}
const jobs: (() => void)[] = [];
const D = THOROUGH ? 3 : 2;

// TypeScript and JavaScript
const tsClasses1 = [...jsHeads, ...tsHeads].flatMap(h => seqs([...jsMembers, ...tsMembers], 1).map(ms => jsClass(h, ms)));
const jsClasses1 = jsHeads.flatMap(h => seqs(jsMembers, 1).map(ms => jsClass(h, ms)));
for (const [ext, lang, cls, mem, heads, extra] of [['a.ts', 'typescript', tsClasses1, [...jsMembers, ...tsMembers], [...jsHeads, ...tsHeads], tsOnly], ['b.tsx', 'typescript', tsClasses1, [...jsMembers, ...tsMembers], [...jsHeads, ...tsHeads], tsOnly], ['c.js', 'javascript', jsClasses1, jsMembers, jsHeads, []], ['d.mjs', 'javascript', [], [], [], []], ['e.cjs', 'javascript', [], [], [], []], ['f.jsx', 'javascript', [], [], [], []]] as const) {
	const path = `src/${ext}`, main_ = ext === 'a.ts' || ext === 'c.js';
	const singles: Piece[] = [...jsFns, ...jsNoise, ...jsImports, ...extra, ...cls];
	jobs.push(() => { for (const p of singles) for (const [open, close] of [[[], []], [['#!/usr/bin/env node', ''], []], [['// head', "'use strict';"], ['', '// tail']], [['// é 😀 日本 ñ', 'run0("😀é");'], []], [['/*' + 'x'.repeat(70), ...Array(600).fill('y'.repeat(70)), '*/'], []]] as const) run(p.id, path, lang, compose([p], [], [...open], [...close])); });
	const small: Piece[] = [...jsFns, ...jsNoise, ...jsImports, ...extra, ...(heads as typeof jsHeads).flatMap(h => [jsClass(h, []), jsClass(h, [(mem as Member[])[0]!])])];
	const pair = main_ ? small : small.filter((_, i) => i % 3 === 0);
	for (const a of pair) jobs.push(() => { for (const b of pair) run(`${a.id} + ${b.id}`, path, lang, compose([a, b], ['', '// between', ''])); });
	if (main_) for (const h of heads as typeof jsHeads) jobs.push(() => { for (const ms of seqs(mem as Member[], D)) if (ms.length > 1) run(`${h[0]}${h[1][0]} {${ms.map(m => m.id).join(', ')}}`, path, lang, compose([jsClass(h, ms)])); });
	if (main_ && THOROUGH) { const tri = small.filter((_, i) => i % 3 === 1); for (const a of tri) jobs.push(() => { for (const b of tri) for (const c of tri) run(`${a.id} + ${b.id} + ${c.id}`, path, lang, compose([a, b, c])); }); }
}
// Python: pieces, classes, and what __all__ lets out
const pyClasses = pyBases.flatMap(bs => seqs(pyMembers, 1).map(ms => pyClass(bs, ms))), pySmall = [...pyPieces, ...pyBases.map(bs => pyClass(bs, [pyMembers[0]!])), pyClass(['(A$)', ['A$']], [pyMembers[1]!], true)];
jobs.push(() => { for (const p of [...pyPieces, ...pyClasses]) for (const open of [[], ['"""Module: def zz(): pass"""', ''], ['#!/usr/bin/env python', '# -*- coding: utf-8 -*-'], ['# é 😀 日本', 's0 = "😀é"'], Array(600).fill('# ' + 'y'.repeat(70))]) run(p.id, 'pkg/a.py', 'python', compose([p], [], open)); });
for (const a of pySmall) jobs.push(() => { for (const b of pySmall) run(`${a.id} + ${b.id}`, 'pkg/b.py', 'python', compose([a, b], ['', ''])); });
for (const bs of pyBases) jobs.push(() => { for (const ms of seqs(pyMembers, D)) run(`class${bs[0]} {${ms.map(m => m.id).join(', ')}}`, 'pkg/c.py', 'python', compose([pyClass(bs, ms)])); });
jobs.push(() => {
	for (const names of subsets(['f1', 'f2', 'C3', 'absent'])) for (const [form, o, c] of [['list', '[', ']'], ['tuple', '(', ',)'], ['lines', '[\n    ', ',\n]']] as const) for (const q of ['"', "'"]) for (const where of ['top', 'end']) {
		if (!names.length && form !== 'list') continue;
		const decl = `__all__ = ${o}${names.map(n => q + n + q).join(form === 'lines' ? ',\n    ' : ', ')}${c}`.split('\n');
		const prog = compose([pyPieces[0]!, pyPieces[1]!, pyClass(['', []], [pyMembers[0]!])], [''], where === 'top' ? decl : [], where === 'end' ? decl : []);
		for (const e of prog.b.ents) if (e.kind !== 'method') e.attrs['isExported'] = names.includes(e.name);
		run(`__all__ (${form}) of ${names.join(' ')} at the ${where}`, 'pkg/d.py', 'python', prog);
	}
});
// Go
const goFile = (imports: Piece, ps: Piece[]): { text: string; b: Builder } => compose([imports, ...ps], [''], ['// Package x: é 😀 日本.', 'package x', '']);
for (const i of goImports) jobs.push(() => { for (const p of goPieces) run(`${i.id}; ${p.id}`, 'go/a.go', 'go', goFile(i, [p])); for (const j of goImports) run(`${i.id}; ${j.id}`, 'go/b.go', 'go', goFile(i, [j, goPieces[0]!])); });
for (const a of goPieces) jobs.push(() => { for (const b of goPieces) { run(`${a.id} + ${b.id}`, 'go/c.go', 'go', goFile(goImports[1]!, [a, b])); if (THOROUGH) for (const c of goPieces) run(`${a.id} + ${b.id} + ${c.id}`, 'go/c.go', 'go', goFile(goImports[0]!, [a, b, c])); } });
// Java
const javaFile = (pkg: boolean, imports: Piece[], ps: Piece[]): { text: string; b: Builder } => { const p = compose([...imports, ...ps], [''], pkg ? ['package q.w;', ''] : ['// é 😀 日本']); if (pkg) p.b.mod('file', 'q.w'); return p; };
const membersOf = (h: JH): Member[] => h[1] === 'interface' ? javaMembers.filter(m => !['private method', 'field', 'public field', 'two fields', 'lambda field', 'static block'].includes(m.id)) : h[0].includes('record') ? javaMembers.filter(m => !['field', 'two fields', 'lambda field'].includes(m.id)) : h[0].includes('abstract') ? [...javaMembers, abstractMember, javaCtor] : h[0].includes('enum') ? javaMembers : [...javaMembers, javaCtor];
for (const h of javaHeads) jobs.push(() => { for (const pkg of [true, false]) for (const ms of seqs(membersOf(h), THOROUGH ? 3 : pkg ? 2 : 1)) { if (ms.filter(m => m.id === 'constructor').length > 1) continue; run(`${h[0]} {${ms.map(m => m.id).join(', ')}}`, 'java/A.java', 'java', javaFile(pkg, [], [javaClass(h, ms)])); } });
const javaSmall = [...javaHeads.map(h => javaClass(h, [javaMembers[0]!])), annoType];
for (const a of javaSmall) jobs.push(() => { for (const b of javaSmall) run(`${a.id} + ${b.id}`, 'java/B.java', 'java', javaFile(true, [javaImports[1]!], [a, b])); for (const [i, j] of product(javaImports, javaImports)) run(`${i!.id}; ${j!.id}; ${a.id}`, 'java/C.java', 'java', javaFile(true, [i!, j!], [a])); });
// Scala
const scalaFile = (pkg: boolean, ps: Piece[]): { text: string; b: Builder } => { const p = compose(ps, [''], pkg ? ['package q.w', ''] : ['// é 😀 日本']); if (pkg) p.b.mod('file', 'q.w'); return p; };
for (const h of scalaHeads) jobs.push(() => { const mem = scalaMembers.filter(m => m.id !== 'abstract def' || /trait|abstract/.test(h[0])); for (const pkg of [true, false]) for (const ms of seqs(mem, THOROUGH ? 3 : pkg ? 2 : 1)) run(`${h[0]} {${ms.map(m => m.id).join(', ')}}`, 'sc/A.scala', 'scala', scalaFile(pkg, [scalaClass(h, ms)])); });
const scalaSmall = [...scalaHeads.map(h => scalaClass(h, [scalaMembers[0]!])), ...scalaPieces];
for (const a of scalaSmall) jobs.push(() => { for (const b of scalaSmall) for (const pkg of [true, false]) run(`${a.id} + ${b.id}`, 'sc/B.scala', 'scala', scalaFile(pkg, [a, b])); });

// Documents: headings split Markdown into sections that cover it from the first heading on; everything else is one entity
const ML = ['# One', '## Two', 'text', '', '```', '# in code', '#tag'];
function sections(lines: string[]): { b: Builder; whole: boolean } {
	const b = new Builder(); let fence = false; const heads: [string, number][] = [];
	lines.forEach((l, i) => { if (l === '```') { fence = !fence; return; } if (fence) return; const m = /^(#{1,6})\s+(\S.*)$/.exec(l); if (m) heads.push([m[2]!.trim(), i + 1]); });
	let any = false;
	heads.forEach(([t, at], i) => { const end = i + 1 < heads.length ? heads[i + 1]![1] - 1 : lines.length; if (lines.slice(at, end).some(l => l.trim())) { b.def('file', b.ent('section', t, at, end)); any = true; } });
	return { b, whole: !any };
}
jobs.push(...Array.from({ length: 7 }, (_, first) => () => {
	for (let n = 0; n < (THOROUGH ? 6 : 5); n++) for (const s of sequences(7, n)) {
		const lines = [first, ...s].map(i => ML[i]!); if (lines.filter(l => l === '```').length % 2) continue;
		const name = n % 2 ? 'x.md' : 'y.mdx', text = lines.join('\n'), { b, whole } = sections(lines), full = `${R1}/docs/${name}`;
		if (whole) b.def('file', b.ent('document', name, 1, lines.length, { body: text }));
		const out = (getParser(full) as G).parse(full, text, R1, 11); chk.evaluations++;
		const bad = judge(out, b, text, { path: full, repo: R1, repoId: 11, lang: 'markdown', rels: RELS, kinds: ALLK }) ?? (out.entities.every((e: any) => e.artifact === true) ? null : 'an entity is not marked as an artifact');
		if (bad) chk.violation(`markdown ${lines.join('|')}`, `${name}: ${JSON.stringify(lines)}: ${bad}`, { lines });
	}
}));
jobs.push(() => {
	for (const [name, lang, kind] of [['a.yaml', 'yaml', 'config'], ['a.yml', 'yaml', 'config'], ['a.json', 'json', 'config'], ['a.toml', 'toml', 'config'], ['a.sql', 'sql', 'document'], ['a.proto', 'proto', 'document'], ['a.graphql', 'graphql', 'document'], ['a.gql', 'graphql', 'document'], ['a.sh', 'shell', 'config'], ['a.bash', 'shell', 'config'], ['Dockerfile', 'dockerfile', 'config'], ['Makefile', 'shell', 'config'], ['.env.example', 'config', 'config']] as const) for (const text of ['', 'x', 'a: 1\nb: 2\n', '# c\n\n{}']) {
		const full = `${R2}/cfg/${name}`, parser = (getParser(full) ?? (ART.basenameParser.handles(full) ? ART.basenameParser : null)) as G | null; chk.evaluations++;
		if (!parser) { chk.violation(`artifact ${name}`, `${name} is a documented artifact and no parser takes it`); continue; }
		const out = parser.parse(full, text, R2, 12), n = text.split('\n').length, own = out.entities.filter((e: any) => e.kind !== 'file'), file = out.entities.find((e: any) => e.kind === 'file');
		const ok = own.length === 1 && own[0].kind === kind && own[0].language === lang && own[0].startLine === 1 && own[0].endLine === n && own[0].body === text && own[0].artifact && file?.artifact && out.relations.length === 1 && out.relations[0].from === file.id && out.relations[0].to === own[0].id;
		if (!ok) chk.violation(`artifact ${name}`, `${name} with ${JSON.stringify(text)} is not one ${kind} entity (${lang}) covering the file`, { got: own });
	}
	for (const name of ['package-lock.json', 'yarn.lock', 'pnpm-lock.yaml', 'go.sum', 'composer.lock']) { const full = `${R1}/${name}`, parser = getParser(full) as G | null; chk.evaluations++; if (parser && parser.parse(full, '{"a": 1}', R1, 11).entities.length) chk.violation(`lock ${name}`, `${name} is indexed although lock files are skipped`); }
	for (const ext of ['.ts', '.tsx', '.js', '.jsx', '.mjs', '.cjs', '.py', '.go', '.java', '.scala', '.md']) if (!supportedExtensions().includes(ext) || !getParser(`/x/y${ext}`)) chk.violation(`extension ${ext}`, `no parser takes ${ext}`);
});

main(async () => {
	await chk.sharded(async (mine: (i: number) => boolean) => { jobs.forEach((j, i) => { if (mine(i)) j(); }); });
	chk.traces = chk.evaluations;
	chk.note(`programs: TypeScript/JavaScript ${jsFns.length + jsNoise.length + jsImports.length + tsOnly.length} pieces and ${jsHeads.length + tsHeads.length} class headers, Python ${pyPieces.length}, Go ${goPieces.length}, Java ${javaHeads.length} headers with ${javaMembers.length} members, Scala ${scalaHeads.length} headers with ${scalaMembers.length} members; pairs of all, member sequences up to ${D}`);
	chk.finish();
});
