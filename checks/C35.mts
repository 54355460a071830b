// C35: what a data question answers is what the data say, and asking changes nothing.
import { Check, main, THOROUGH, canon, repo, SCRATCH, product } from '../lib/mc.mts';
import { mkdirSync, writeFileSync, readFileSync, readdirSync, rmSync, statSync, symlinkSync } from 'node:fs';
import { createRequire } from 'node:module';
import { createHash } from 'node:crypto';
import { join } from 'node:path';

// ---- the reference: rows as JS values, SQL's three-valued logic, textbook statistics in exact-enough arithmetic ----
type V = number | string | null;
type Row = { k: number; n: number | null; x: number | null; s: string | null; t: string | null };
type Clause = { column: string; op: string; value?: any; valueColumn?: string };
const ALPH: Omit<Row, 'k'>[] = [
	{ n: 1, x: 0.5, s: 'a', t: '2024-01-01 00:00:00' },
	{ n: 1, x: -2, s: 'A%', t: '2024-01-01 00:01:00' },
	{ n: null, x: 2, s: "it's_", t: null },
	{ n: -3, x: null, s: null, t: '2024-01-02 00:00:00' },
	{ n: 7, x: 0.25, s: 'a', t: '2024-01-01 00:03:00' },
	{ n: 2, x: 2, s: 'b_', t: '2024-03-01 00:00:00' },
];
const like = (s: string, p: string, ci: boolean): boolean => new RegExp('^' + [...p].map(c => c === '%' ? '[^]*' : c === '_' ? '[^]' : c.replace(/[.*+?^${}()|[\]\\]/g, '\\$&')).join('') + '$', ci ? 'i' : '').test(s);
function holds(r: any, c: Clause, ci: boolean): boolean {
	const v: V = r[c.column];
	if (c.op === 'is null') return v === null;
	if (c.op === 'is not null') return v !== null;
	if (v === null) return false;
	if (c.op === 'in') return c.value.some((w: V) => w !== null && w === v);
	if (c.op === 'between') return v >= c.value[0] && v <= c.value[1];
	if (c.op === 'like') return like(String(v), c.value, ci);
	if (c.op === 'not like') return !like(String(v), c.value, ci);
	const w: V = c.valueColumn !== undefined ? r[c.valueColumn] : c.value;
	if (w === null || w === undefined) return false;
	switch (c.op) { case '=': return v === w; case '!=': return v !== w; case '<': return v < w; case '<=': return v <= w; case '>': return v > w; case '>=': return v >= w; }
	throw new Error(c.op);
}
const keep = (rows: Row[], where: Clause[], ci: boolean): Row[] => rows.filter(r => where.every(c => holds(r, c, ci)));
const col = (rows: Row[], c: string): any[] => rows.map(r => (r as any)[c]).filter(v => v !== null);
const sum = (a: number[]): number => a.reduce((p, q) => p + q, 0);
const mean = (a: number[]): number => { const m = a[0] ?? 0; return m + sum(a.map(v => v - m)) / a.length; };
const ss = (a: number[], b: number[]): number => { const p = mean(a), q = mean(b); return sum(a.map((v, i) => (v - p) * (b[i]! - q))); };
const asc = (a: any[]): any[] => [...a].sort((p, q) => p < q ? -1 : p > q ? 1 : 0);
const pct = (a: number[], p: number): number | null => { if (!a.length) return null; const s = asc(a), i = p * (s.length - 1), lo = Math.floor(i); return s[lo] + (i - lo) * ((s[Math.min(lo + 1, s.length - 1)]) - s[lo]); };
const corr = (a: number[], b: number[]): number | null => { if (!a.length) return null; const p = ss(a, a), q = ss(b, b); return p > 0 && q > 0 ? ss(a, b) / Math.sqrt(p * q) : null; };
const rank = (a: number[]): number[] => a.map(v => 1 + a.filter(w => w < v).length);
const epoch = (t: string | null): number | null => t === null ? null : Date.parse(t.replace(' ', 'T') + 'Z') / 1000;
const near = (a: any, b: any, tol = 1e-9): boolean => a === b || (typeof a === 'number' && typeof b === 'number' && Math.abs(a - b) <= tol * Math.max(1, Math.abs(a), Math.abs(b)));
const keyOf = (r: any, cols: string[]): string => JSON.stringify(cols.map(c => r[c] ?? null));

function agg(rows: Row[], f: string, c: string, args: any, ci: boolean): number | string | null | 'any' {
	const v = f === 'count' || f === 'count_where' || f === 'composite_distinct_count' ? [] : col(rows, c);
	switch (f) {
		case 'count': return rows.length;
		case 'count_non_null': return v.length;
		case 'distinct_count': return new Set(v).size;
		case 'composite_distinct_count': return new Set(rows.map(r => keyOf(r, args.columns))).size;
		case 'count_where': return rows.length ? keep(rows, args.predicate, ci).length : 'any';
		case 'sum': return v.length ? sum(v) : null;
		case 'avg': return v.length ? mean(v) : null;
		case 'min': return v.length ? asc(v)[0] : null;
		case 'max': return v.length ? asc(v).at(-1) : null;
		case 'variance': return v.length > 1 ? ss(v, v) / (v.length - 1) : null;
		case 'stddev': return v.length > 1 ? Math.sqrt(ss(v, v) / (v.length - 1)) : null;
		case 'percentile': return pct(v, args.p);
		case 'mad': { const m = pct(v, 0.5); return m === null ? null : pct(v.map(w => Math.abs(w - m)), 0.5); }
		case 'skewness': { const n = v.length; if (n < 3) return 'any'; const m2 = ss(v, v) / n; if (m2 === 0) return 'any'; const m = mean(v); return Math.sqrt(n * (n - 1)) / (n - 2) * (sum(v.map(w => (w - m) ** 3)) / n) / m2 ** 1.5; }
		case 'kurtosis': { const n = v.length; if (n < 4) return 'any'; const m2 = ss(v, v) / n; if (m2 === 0) return 'any'; const m = mean(v); const g = (sum(v.map(w => (w - m) ** 4)) / n) / m2 ** 2; return (n - 1) / ((n - 2) * (n - 3)) * ((n + 1) * g - 3 * (n - 1)); }
	}
	throw new Error(f);
}
const keyName = (f: string, c: string, args: any): string => f === 'percentile' ? `${c}__percentile_${String(args.p).replace('.', '_')}` : f === 'composite_distinct_count' ? `${c}__${f}_${args.columns.join('_')}` : `${c}__${f}`;

// judgements: each returns what is wrong with an answer, or undefined
const J = {
	sample(rows: Row[], d: any, cols: string[], limit: number): string | undefined {
		const want = rows.map(r => keyOf(r, cols)), got = d.rows.map((r: any) => keyOf(r, cols));
		if (canon(d.columns) !== canon(cols)) return `columns ${d.columns}`;
		if (new Set(got).size !== got.length && new Set(want).size === want.length) return 'repeats a row';
		const pool = [...want]; for (const g of got) { const i = pool.indexOf(g); if (i < 0) return `returns ${g}, not among ${want.join(' ')}`; pool.splice(i, 1); }
		if (got.length !== Math.min(limit, want.length)) return `returns ${got.length} rows of ${want.length}, limit ${limit}`;
		if (want.length > limit && d.truncated !== true) return 'truncated and does not say so';
		if (want.length < limit && d.truncated !== false) return 'says truncated and is not';
	},
	distinct(rows: Row[], d: any, c: string, topN: number, nullsFirst: boolean): string | undefined {
		const m = new Map<any, number>(); for (const r of rows) { const v = (r as any)[c]; m.set(v, (m.get(v) ?? 0) + 1); }
		if (d.distinctCount !== [...m.keys()].filter(v => v !== null).length) return `distinctCount ${d.distinctCount}`;
		const cmp = (a: any, b: any): number => a === b ? 0 : a === null ? (nullsFirst ? -1 : 1) : b === null ? (nullsFirst ? 1 : -1) : a < b ? -1 : 1;
		const want = [...m].sort((p, q) => q[1] - p[1] || cmp(p[0], q[0])).slice(0, topN).map(([value, count]) => ({ value, count }));
		if (canon(d.topValues) !== canon(want)) return `top ${JSON.stringify(d.topValues)}, want ${JSON.stringify(want)}`;
	},
	histogram(rows: Row[], d: any, c: string, b: number, mode: string): string | undefined {
		const v = asc(col(rows, c));
		if (d.nonNullCount !== v.length || d.nullCount !== rows.length - v.length) return `counts ${d.nonNullCount}+${d.nullCount} of ${rows.length}`;
		if (!v.length) return d.buckets.length ? 'buckets of no data' : undefined;
		if (d.bounds.lower !== v[0] || d.bounds.upper !== v.at(-1)) return `bounds ${JSON.stringify(d.bounds)}`;
		if (mode === 'equal-frequency') {
			const want: any[] = []; let i = 0;
			for (let g = 0; g < b && i < v.length; g++) { const size = Math.floor(v.length / b) + (g < v.length % b ? 1 : 0); const part = v.slice(i, i + size); i += size; want.push({ lower: part[0], upper: part.at(-1), count: size }); }
			return canon(d.buckets) === canon(want) ? undefined : `buckets ${JSON.stringify(d.buckets)}, want ${JSON.stringify(want)}`;
		}
		if (d.buckets.length !== b) return `${d.buckets.length} buckets of ${b}`;
		const lo = v[0], up = v.at(-1), w = up === lo ? 1 : (up - lo) / b; let total = 0;
		for (const [i, k] of d.buckets.entries()) {
			if (!near(k.lower, lo + i * w) || !near(k.upper, i === b - 1 ? up : lo + (i + 1) * w)) return `bucket ${i} spans ${k.lower}..${k.upper}`;
			const eps = 1e-9 * w; let sure = 0, may = 0;
			for (const q of v) { const a = (q - lo) / w; const id = q >= up ? b - 1 : Math.floor(a); if (id === i) (Math.abs(a - Math.round(a)) * w < eps && Math.abs(w * b / b - w) >= 0 && !Number.isInteger(a) ? may++ : sure++); else if (q < up && Math.abs(a - Math.round(a)) < 1e-9 && !Number.isInteger(a) && (Math.round(a) === i || Math.round(a) - 1 === i)) may++; }
			if (k.count < sure || k.count > sure + may) return `bucket ${i} (${k.lower}..${k.upper}) counts ${k.count}, holds ${sure}${may ? `..${sure + may}` : ''}`;
			total += k.count;
		}
		if (total !== v.length) return `buckets hold ${total} of ${v.length}`;
	},
	correlation(rows: Row[], d: any, cols: string[], method: string, tol = 1e-6): string | undefined {
		const full = rows.filter(r => cols.every(c => (r as any)[c] !== null));
		if (d.nonNullCount !== full.length) return `n ${d.nonNullCount}, want ${full.length}`;
		for (let i = 0; i < cols.length; i++) for (let j = 0; j < cols.length; j++) {
			let a = col(full, cols[i]!), b = col(full, cols[j]!); if (method === 'spearman') { a = rank(a); b = rank(b); }
			const want = i === j ? 1 : corr(a, b), got = d.matrix[i][j];
			if (want === null ? got !== null : got === null || !near(got, want, tol)) return `${cols[i]}~${cols[j]} = ${got}, want ${want}`;
		}
	},
	outliers(rows: Row[], d: any, c: string, method: string, k: number, ex: number): string | undefined {
		const v = col(rows, c) as number[]; let lo: number | null = null, up: number | null = null;
		if (d.nonNullCount !== v.length) return `n ${d.nonNullCount}`;
		if (method === 'iqr') { const q1 = pct(v, 0.25), q3 = pct(v, 0.75); if (q1 !== null && q3 !== null) { lo = q1 - k * (q3 - q1); up = q3 + k * (q3 - q1); if (!near(d.center, pct(v, 0.5)) || !near(d.spread, q3 - q1)) return `center ${d.center} spread ${d.spread}`; } }
		else if (v.length > 1) { const m = mean(v), sd = Math.sqrt(ss(v, v) / (v.length - 1)); if (!near(d.center, m) || !near(d.spread, sd)) return `center ${d.center} spread ${d.spread}`; if (sd > 0) { lo = m - k * sd; up = m + k * sd; } }
		if ((lo === null) !== (d.lowerBound === null) || (up === null) !== (d.upperBound === null) || (lo !== null && (!near(d.lowerBound, lo) || !near(d.upperBound, up)))) return `bounds ${d.lowerBound}..${d.upperBound}, want ${lo}..${up}`;
		// judged against the bounds it states
		const below = lo === null ? [] : v.filter(w => w < d.lowerBound), above = lo === null ? [] : v.filter(w => w > d.upperBound);
		if (d.belowCount !== below.length || d.aboveCount !== above.length || d.outlierCount !== below.length + above.length) return `counts ${d.belowCount}/${d.aboveCount}/${d.outlierCount}, want ${below.length}/${above.length}`;
		const far = [...below.map(w => ({ value: w, side: 'below', e: d.lowerBound - w })), ...above.map(w => ({ value: w, side: 'above', e: w - d.upperBound }))].sort((p, q) => q.e - p.e);
		if (d.examples.length !== Math.min(ex, far.length)) return `${d.examples.length} examples of ${far.length}`;
		for (const [i, e] of d.examples.entries()) { const m = far.find(f => f.value === e.value && f.side === e.side); if (!m || !near(m.e, far[i]!.e)) return `example ${i} ${JSON.stringify(e)}, want extremity ${far[i]!.e}`; }
	},
	trend(rows: Row[], d: any, y: string, tol = 1e-6): string | undefined {
		const p = rows.filter(r => r.t !== null && (r as any)[y] !== null), X = p.map(r => epoch(r.t)!), Y = p.map(r => (r as any)[y] as number);
		if (d.n !== p.length) return `n ${d.n}, want ${p.length}`;
		if (d.minTimestampEpoch !== (X.length ? Math.min(...X) : null) || d.maxTimestampEpoch !== (X.length ? Math.max(...X) : null)) return `time range ${d.minTimestampEpoch}..${d.maxTimestampEpoch}`;
		const Sxx = X.length ? ss(X, X) : 0;
		if (p.length < 2 || Sxx === 0) return d.slope === null && d.slopePerDay === null && d.intercept === null && (d.r2 === null || d.r2 === 1) ? undefined : `slope ${d.slope} of ${p.length} points`;
		const b = ss(X, Y) / Sxx, at = mean(Y) - b * mean(X), Syy = ss(Y, Y);
		if (d.slope === null || Math.abs(d.slope - b) > tol * Math.max(Math.abs(b), Math.sqrt(Syy / Sxx)) || !near(d.slopePerDay, d.slope * 86400)) return `slope ${d.slope}, want ${b}`;
		if (d.intercept === null || Math.abs(d.intercept - at) > tol * Math.max(1, Math.abs(at))) return `intercept ${d.intercept}, want ${at}`;
		if (Syy === 0 ? d.r2 !== null && d.r2 !== 1 : d.r2 === null || !near(d.r2, ss(X, Y) ** 2 / (Sxx * Syy), tol)) return `r2 ${d.r2}`;
	},
	dickey(rows: Row[], d: any, y: string, tol = 1e-6): string | undefined {
		const s = [...rows].sort((p, q) => (epoch(p.t) ?? -Infinity) - (epoch(q.t) ?? -Infinity)).map(r => (r as any)[y] as number | null);
		const pairs = s.slice(1).map((v, i) => [s[i]!, v] as [number | null, number | null]).filter(([a, b]) => a !== null && b !== null) as [number, number][];
		if (d.n !== pairs.length) return `n ${d.n}, want ${pairs.length}`;
		const X = pairs.map(p => p[0]), D = pairs.map(p => p[1] - p[0]);
		if (pairs.length < 3 || ss(X, X) === 0) return d.beta === null && d.tStat === null ? undefined : `beta ${d.beta} of ${pairs.length} steps`;
		const Sxx = ss(X, X), b = ss(X, D) / Sxx, res = Math.max(0, ss(D, D) - b * ss(X, D));
		if (!near(d.beta, b, tol)) return `beta ${d.beta}, want ${b}`;
		if (!near(d.sxx, Sxx, tol) || Math.abs(d.ssRes - res) > tol * Math.max(1, ss(D, D))) return `sxx ${d.sxx} ssRes ${d.ssRes}, want ${Sxx} ${res}`;
		if (res > 1e-6 * ss(D, D)) { const se = Math.sqrt(res / (pairs.length - 2)) / Math.sqrt(Sxx); if (!near(d.seBeta, se, 1e-5) || !near(d.tStat, b / se, 1e-5)) return `se ${d.seBeta} t ${d.tStat}, want ${se} ${b / se}`; }
	},
	gaps(rows: Row[], d: any, ratio: number, top: number): string | undefined {
		const X = asc(rows.filter(r => r.t !== null).map(r => epoch(r.t)!)) as number[], D = X.slice(1).map((v, i) => ({ f: X[i]!, t: v, d: v - X[i]! }));
		if (d.n !== X.length) return `n ${d.n}, want ${X.length}`;
		if (d.minTimestampEpoch !== (X[0] ?? null) || d.maxTimestampEpoch !== (X.at(-1) ?? null)) return 'time range';
		const m = pct(D.map(e => e.d), 0.5);
		if (!near(d.medianDeltaSeconds, m)) return `median ${d.medianDeltaSeconds}, want ${m}`;
		if (m === null || m <= 0) return d.gapCount === 0 && d.topGaps.length === 0 ? undefined : 'gaps without a median';
		const reg = D.filter(e => e.d >= m * 0.5 && e.d <= m * 1.5).length / D.length, g = D.filter(e => e.d > m * ratio).sort((p, q) => q.d - p.d);
		if (!near(d.regularityScore, reg) || d.gapCount !== g.length) return `regularity ${d.regularityScore} gaps ${d.gapCount}, want ${reg} ${g.length}`;
		if (d.topGaps.length !== Math.min(top, g.length)) return `${d.topGaps.length} top gaps of ${g.length}`;
		for (const [i, e] of d.topGaps.entries()) if (e.deltaSeconds !== g[i]!.d || !g.some(q => q.f === e.fromEpoch && q.t === e.toEpoch && q.d === e.deltaSeconds) || !near(e.ratio, e.deltaSeconds / m)) return `gap ${i} ${JSON.stringify(e)}`;
	},
	dependency(rows: Row[], d: any, f: string, t: string, top: number): string | undefined {
		const G = new Map<any, any[]>(); for (const r of rows as any[]) if (r[f] !== null) G.set(r[f], [...(G.get(r[f]) ?? []), r[t]]);
		const g = [...G].map(([v, ts]) => ({ v, size: ts.length, d: [...new Set(ts.filter((q: any) => q !== null))] }));
		const want = { totalGroups: g.length, consistentGroups: g.filter(q => q.d.length === 1).length, informativeGroups: g.filter(q => q.size >= 2).length, maxDistinctTo: Math.max(0, ...g.map(q => q.d.length)) };
		for (const [k, v] of Object.entries(want)) if (d[k] !== v) return `${k} ${d[k]}, want ${v}`;
		if (!near(d.avgDistinctTo, g.length ? sum(g.map(q => q.d.length)) / g.length : 0) || !near(d.determinationScore, g.length ? want.consistentGroups / g.length : 0)) return `avg ${d.avgDistinctTo} score ${d.determinationScore}`;
		const bad = g.filter(q => q.d.length > 1).sort((p, q) => q.d.length - p.d.length || (p.v < q.v ? -1 : 1)).slice(0, top);
		if (canon(d.topViolations.map((v: any) => [v.fromValue, v.distinctToCount])) !== canon(bad.map(b => [b.v, b.d.length]))) return `violations ${JSON.stringify(d.topViolations)}, want ${JSON.stringify(bad)}`;
		for (const [i, v] of d.topViolations.entries()) { const non = v.toSample.filter((q: any) => q !== null); const all = G.get(v.fromValue)!; if (v.toSample.some((q: any) => !all.includes(q)) || new Set(v.toSample).size !== v.toSample.length || non.length < Math.min(bad[i]!.d.length, 4)) return `sample ${JSON.stringify(v.toSample)} of ${JSON.stringify(all)}`; }
	},
	anti(left: Row[], right: Row[], d: any, c: string, rc: string, limit: number): string | undefined {
		const R = new Set(col(right, rc)), want = asc([...new Set(col(left, c))].filter(v => !R.has(v)));
		if (d.orphanCount !== want.length || canon(d.examples) !== canon(want.slice(0, limit))) return `${d.orphanCount} orphans ${JSON.stringify(d.examples)}, want ${JSON.stringify(want)}`;
	},
};

function* multisets(k: number, m: number, from = 0): Generator<number[]> { if (k === 0) { yield []; return; } for (let i = from; i < m; i++) for (const r of multisets(k - 1, m, i)) yield [i, ...r]; }
const tables = (max: number): Row[][] => { const out: Row[][] = []; for (let l = 0; l <= max; l++) for (const m of multisets(l, ALPH.length)) out.push(m.map((a, i) => ({ k: i + 1, ...ALPH[a]! }))); return out; };
// data far from zero, where careless arithmetic loses it; and times close together, recently
const T0 = Date.parse('2026-06-01T00:00:00Z');
const far = (base: number, offs: (number | null)[], step: number): Row[] => offs.map((o, i) => ({ k: i + 1, n: o === null ? null : base + o, x: o === null ? null : base / 4 + o * 0.5, s: `v${i % 3}`, t: new Date(T0 + i * step * 1000 + (i % 2) * 1000).toISOString().slice(0, 19).replace('T', ' ') }));
const FAR: Row[][] = [far(1_700_000_000, [0, 60, 125, 170, 255, 290], 60), far(9_007_199_254_740_000, [1, 2, 5, 700, 900, 991], 1), far(-4_000_000_000_000, [3, null, 1, 0, 2, 9], 86400), far(0, [0, 1, 2, 3, 4, 5, 6, 7, 8, 60], 3600), far(1e9, Array.from({ length: 12 }, (_, i) => i * i % 7), 60)];
const CL: Clause[] = [];
for (const [c, vs] of [['n', [1, 2, -3]], ['x', [0.5, 2, -2]], ['s', ['a', "it's_", 'A%']]] as [string, any[]][]) {
	for (const op of ['=', '!=', '<', '<=', '>', '>=']) for (const value of vs) CL.push({ column: c, op, value });
	CL.push({ column: c, op: '=', value: null }, { column: c, op: 'is null' }, { column: c, op: 'is not null' }, { column: c, op: 'in', value: vs.slice(0, 2) }, { column: c, op: 'in', value: [vs[2]] }, { column: c, op: 'between', value: asc(vs.slice(0, 2)) }, { column: c, op: 'between', value: asc(vs.slice(0, 2)).reverse() });
}
for (const op of ['=', '!=', '<', '<=', '>', '>=']) CL.push({ column: 'n', op, valueColumn: 'x' }, { column: 'x', op, valueColumn: 'n' }, { column: 'k', op, valueColumn: 'n' });
for (const op of ['like', 'not like']) for (const value of ['a', 'a%', '%', '_', '%\'%', '__', "x' OR '1'='1"]) CL.push({ column: 's', op, value });
CL.push({ column: 's', op: '=', value: "a' OR '1'='1" }, { column: 's', op: '=', value: '"; DROP TABLE t0; --' }, { column: 's', op: 'in', value: ["a') OR ('1'='1", 'b_'] });
const W2: Clause[][] = [[], [{ column: 'n', op: '>', value: 0 }], [{ column: 'x', op: 'between', value: [-2, 0.5] }, { column: 's', op: 'is not null' }], [{ column: 's', op: 'in', value: ['a', 'A%'] }, { column: 'k', op: '!=', valueColumn: 'n' }]];
const COLS = ['k', 'n', 'x', 's', 't'];

await main(async () => {
	const chk = new Check('C35', 'exploration');
	chk.rule = 'a case is one table (every multiset of up to N rows over an alphabet with nulls, ties, quotes and wildcards, plus fixed tables of data far from zero), one data tool and one request; every answer equals an independent computation over the rows, every refused request is refused, and no case changes a byte of the data';
	const { registerBuiltinDataDrivers } = await repo('src/daemon/db/drivers/index.ts'), dbi = await repo('src/daemon/db/index.ts');
	await registerBuiltinDataDrivers();
	const { registerDbTools } = await repo('src/daemon/tools/builtins/db/index.ts'), { getTool } = await repo('src/daemon/tools/registry.ts'), common = await repo('src/daemon/db/drivers/rdbms-common.ts'), duck = await repo('src/daemon/db/duckdb-pool.ts');
	registerDbTools();
	const Database = createRequire(join(process.env['MC_REPO'] ?? '/repo', 'package.json'))('better-sqlite3');

	await chk.sharded(async mine => {
		const R = join(SCRATCH, 'repo'), D = join(R, 'data'); rmSync(R, { recursive: true, force: true }); mkdirSync(D, { recursive: true });
		const small = tables(THOROUGH ? 5 : 4), mid = tables(THOROUGH ? 4 : 3);
		// --- the data ---
		const db = new Database(join(D, 'a.db'));
		db.exec('BEGIN');
		const create = (name: string, rows: Row[]): void => { db.exec(`CREATE TABLE ${name} (k INTEGER PRIMARY KEY, n INTEGER, x REAL, s TEXT, t TEXT)`); const st = db.prepare(`INSERT INTO ${name} VALUES (?,?,?,?,?)`); for (const r of rows) st.run(r.k, r.n === null ? null : BigInt(r.n), r.x, r.s, r.t); };
		small.forEach((t, i) => create(`t${i}`, t)); FAR.forEach((t, i) => create(`far${i}`, t));
		db.exec(`CREATE TABLE parent (id INTEGER NOT NULL, a TEXT NOT NULL, b REAL, PRIMARY KEY (id, a)); CREATE TABLE child (id INTEGER PRIMARY KEY, p INTEGER REFERENCES t1(k), note TEXT NOT NULL, any);
			CREATE UNIQUE INDEX child_p_note ON child (note, p); CREATE INDEX child_any ON child ("any"); CREATE VIEW vw AS SELECT id, note FROM child; CREATE TABLE "order" (k INTEGER, v TEXT); CREATE INDEX "idx-dash" ON "order" (v);`);
		db.prepare('INSERT INTO "order" VALUES (1, ?)').run('one');
		db.exec('CREATE TABLE wide (id INTEGER, m TEXT)'); for (let i = 0; i < 60; i++) db.prepare('INSERT INTO wide VALUES (?,?)').run(i, `m${i % 7}`);
		db.exec('CREATE TABLE big (id INTEGER, m TEXT)'); for (const [id, m] of [['9007199254740993', 'p'], ['9007199254740993', 'q'], ['9007199254740992', 'p'], ['-9223372036854775808', 'r']]) db.prepare('INSERT INTO big VALUES (CAST(? AS INTEGER),?)').run(id, m);
		db.exec('COMMIT'); db.close();
		const conns: any[] = [{ id: 'lite', kind: 'sqlite', path: join(D, 'a.db') }];
		const mineMid = [...mid, FAR[3]].map((t, i) => ({ t, i })).filter(({ i }) => mine(i));
		await duck.withConnection(async (c: any) => {
			for (const { t, i } of mineMid) {
				await c.run(`CREATE OR REPLACE TABLE p (k INTEGER, n BIGINT, x DOUBLE, s VARCHAR, t TIMESTAMP)`);
				for (const r of t) await c.run(`INSERT INTO p VALUES (${r.k}, ${r.n ?? 'NULL'}, ${r.x ?? 'NULL'}, ${r.s === null ? 'NULL' : `'${r.s.replace(/'/g, "''")}'`}, ${r.t === null ? 'NULL' : `TIMESTAMP '${r.t}'`})`);
				await c.run(`COPY p TO '${join(D, `p${i}.parquet`)}' (FORMAT parquet)`); conns.push({ id: `p${i}`, kind: 'parquet', path: join(D, `p${i}.parquet`) });
			}
		});
		const first = { k: 0, ...ALPH[0]! };
		const texts = mid.filter(t => t.length <= 2).map((t, i) => ({ t: [first, ...t.map(r => ({ ...r }))], i })).filter(({ i }) => mine(i));
		const csvq = (v: V, sep: string): string => v === null ? '' : typeof v === 'number' ? String(v) : new RegExp(`["${sep}]`).test(v) ? `"${v.replace(/"/g, '""')}"` : v;
		for (const { t, i } of texts) for (const [kind, sep] of [['csv', ','], ['tsv', '\t'], ['jsonl', ''], ['json', '']] as const) {
			const f = join(D, `x${i}.${kind}`);
			writeFileSync(f, kind === 'jsonl' ? t.map(r => JSON.stringify(r)).join('\n') + '\n' : kind === 'json' ? JSON.stringify(t) : [COLS.join(sep), ...t.map(r => COLS.map(c => csvq((r as any)[c], sep)).join(sep))].join('\n') + '\n');
			conns.push({ id: `x${i}${kind}`, kind, path: f });
		}
		// directories and awkward names
		for (const [d, names] of [['dir', ['a.csv', 'b.csv', 'c.txt', '.hidden.csv', 'sub/d.csv', 'sub/.h/e.csv']]] as [string, string[]][]) for (const [i, nme] of names.entries()) { mkdirSync(join(D, d, nme, '..'), { recursive: true }); writeFileSync(join(D, d, nme), `k,s\n${i},f${i}\n`); }
		for (const y of [2023, 2024]) { mkdirSync(join(D, `hive/y=${y}`), { recursive: true }); writeFileSync(join(D, `hive/y=${y}/f.csv`), `k\n${y - 2000}\n`); }
		writeFileSync(join(D, 'data[1].csv'), 'k,s\n1,one\n'); writeFileSync(join(D, 'data1.csv'), 'k,s\n2,two\n'); writeFileSync(join(D, 'st*r.csv'), 'k,s\n3,three\n'); writeFileSync(join(D, 'stxr.csv'), 'k,s\n4,four\n');
		writeFileSync(join(D, 'semi.csv'), "k;s\n1;'a;b'\n2;c\n"); writeFileSync(join(D, 'raw.csv'), '1,a\n2,b\n');
		writeFileSync(join(D, 'docs.jsonl'), [{ a: 1, b: { c: 'x', d: null } }, { a: 2, b: { c: 'y', d: 1.5 } }, { a: null, b: { c: 'z', d: 2.5 } }].map(r => JSON.stringify(r)).join('\n') + '\n');
		mkdirSync(join(R, '..', 'outside'), { recursive: true }); writeFileSync(join(R, '..', 'outside', 'o.csv'), 'k\n1\n'); mkdirSync(join(R, '..dots'), { recursive: true }); writeFileSync(join(R, '..dots', 'd.csv'), 'k\n5\n');
		conns.push({ id: 'dir', kind: 'csv', path: join(D, 'dir') }, { id: 'dirr', kind: 'csv', path: join(D, 'dir'), recursive: true }, { id: 'hive', kind: 'csv', path: join(D, 'hive'), recursive: true, partitioning: 'hive' }, { id: 'one', kind: 'csv', path: join(D, 'data[1].csv') }, { id: 'star', kind: 'csv', path: join(D, 'st*r.csv') },
			{ id: 'semi', kind: 'csv', path: join(D, 'semi.csv'), options: { delimiter: ';', quote: "'" } }, { id: 'raw', kind: 'csv', path: join(D, 'raw.csv'), options: { header: false } }, { id: 'docs', kind: 'jsonl', path: join(D, 'docs.jsonl') },
			{ id: 'out', kind: 'csv', path: join(R, '..', 'outside', 'o.csv') }, { id: 'outdb', kind: 'sqlite', path: join(R, '..', 'outside', 'none.db') }, { id: 'dots', kind: 'csv', path: join(R, '..dots', 'd.csv') }, { id: 'rel', kind: 'csv', path: 'data/data1.csv' });
		symlinkSync(join(R, '..', 'outside', 'o.csv'), join(D, 'ln.csv'));
		await dbi.saveConnections(R, { connections: conns });
		const digest = (): string => { const h = createHash('sha256'); const walk = (d: string): void => { for (const e of readdirSync(d, { withFileTypes: true }).sort((a, b) => a.name < b.name ? -1 : 1)) { const p = join(d, e.name); if (e.isDirectory()) walk(p); else { h.update(p); h.update(statSync(p).mtimeMs + ''); h.update(readFileSync(p)); } } }; walk(R); return h.digest('hex'); };
		const before = digest();

		const call = async (id: string, input: any, deps: any = { repoPath: R }): Promise<any> => { chk.evaluations++; try { return await getTool(id).execute(input, deps); } catch (e: any) { return { success: false, error: `threw ${e?.message ?? e}`, threw: true }; } };
		let bad = 0; const seen = new Map<string, number>();
		const fault = (key: string, what: string, ctx: any): void => { const n = (seen.get(key) ?? 0) + 1; seen.set(key, n); bad++; if (n <= 3) chk.violation(key, what, ctx); };
		const ask = async (id: string, input: any, judge: (d: any) => string | undefined, may = false): Promise<void> => {
			const r = await call(id, input);
			if (!r.success) { if (!may) fault(`${id}-fails`, `${id} fails: ${r.error}`, { id, input }); return; }
			const w = judge(r.data); if (w) fault(`${id}-wrong`, `${id}: ${w}`, { id, input, data: r.data });
		};
		const refuse = async (id: string, input: any, why: string, deps?: any): Promise<void> => { const r = await call(id, input, deps); if (r.success || typeof r.error !== 'string' || !r.error) fault(`${id}-accepts`, `${id} accepts ${why}`, { id, input, out: r }); };

		const AGG = (duckdb: boolean): [string, string, any?][] => { const out: [string, string, any?][] = [['count', '*'], ['composite_distinct_count', 'c', { columns: ['n', 's'] }], ['composite_distinct_count', 'd', { columns: ['n', 'x', 's'] }]];
			for (const c of ['n', 'x', 's']) out.push(['count_non_null', c], ['distinct_count', c]);
			for (const c of ['n', 'x']) { out.push(['sum', c], ['avg', c], ['min', c], ['max', c]); if (duckdb) out.push(['stddev', c], ['variance', c], ['skewness', c], ['kurtosis', c], ['mad', c], ['percentile', c, { p: 0 }], ['percentile', c, { p: 0.25 }], ['percentile', c, { p: 0.5 }], ['percentile', c, { p: 0.9 }], ['percentile', c, { p: 1 }]); }
			return out; };
		const aggJudge = (rows: Row[], specs: [string, string, any?][], ci: boolean) => (d: any): string | undefined => {
			for (const [f, c, a] of specs) { const k = keyName(f, c, a), w = agg(rows, f, c, a, ci); if (w === 'any') continue; if (!(k in d.values)) return `no ${k}`; if (!near(d.values[k], w, f === 'kurtosis' || f === 'skewness' ? 1e-6 : 1e-9)) return `${k} = ${d.values[k]}, want ${w}`; }
		};
		const spec = (l: [string, string, any?][]) => l.map(([f, c, a]) => ({ column: c, function: f, ...(a ? { args: a } : {}) }));
		const counts = async (id: string, base: any, rows: Row[], ws: Clause[][], ci: boolean): Promise<void> => {
			for (const w of ws) { const p = CL[(w.length * 7 + rows.length) % CL.length]!; await ask(id, { ...base, aggregations: [{ column: 'p', function: 'count_where', args: { predicate: [{ column: 'n', op: '>', value: 0 }, { column: 'x', op: '<', valueColumn: 'n' }] } }, { column: 'q', function: 'count_where', args: { predicate: [p] } }, { column: '*', function: 'count' }], where: w }, d => {
				const rs = keep(rows, w, ci), v = Object.entries(d.values); if (!rs.length) return d.values['*__count'] === 0 ? undefined : 'counts rows of nothing';
				const a = v.find(([k]) => k.startsWith('p__'))?.[1], b = v.find(([k]) => k.startsWith('q__'))?.[1], A = keep(rs, [{ column: 'n', op: '>', value: 0 }, { column: 'x', op: '<', valueColumn: 'n' }], ci).length, B = keep(rs, [p], ci).length;
				return a === A && b === B && d.values['*__count'] === rs.length ? undefined : `count_where ${a}, ${b} (${JSON.stringify(p)}), want ${A}, ${B}`; }); }
		};
		// every question about one table, through one connection
		const table = async (P: string, base: any, rows: Row[], o: { duckdb: boolean; clauses: Clause[]; ws: Clause[][]; buckets: number[]; far?: boolean; sampleCols?: string[] }): Promise<void> => {
			const ci = !o.duckdb, target = base.target !== undefined;
			chk.traces++; chk.nontrivial += rows.length > 1 ? 1 : 0;
			const cols = o.sampleCols ?? COLS, cmp = cols.filter(c => c !== 't' || !o.duckdb);
			await ask(`${P}_sample`, { ...base, limit: 50 }, d => canon(d.columns) !== canon(cols) ? `columns ${d.columns}` : J.sample(rows, { ...d, columns: cmp }, cmp, 50));
			for (const limit of [1, 2]) await ask(`${P}_sample`, { ...base, limit }, d => J.sample(rows, { ...d, columns: cmp }, cmp, limit));
			for (const c of o.clauses) await ask(`${P}_sample`, { ...base, limit: 50, where: [c] }, d => J.sample(keep(rows, [c], ci), { ...d, columns: cmp }, cmp, 50));
			const A = AGG(o.duckdb);
			for (const w of o.ws) {
				const rs = keep(rows, w, ci);
				await ask(`${P}_sample`, { ...base, limit: 3, where: w }, d => J.sample(rs, { ...d, columns: cmp }, cmp, 3));
				await ask(`${P}_aggregate`, { ...base, aggregations: spec(A), where: w }, aggJudge(rs, A, ci));
				for (const c of ['n', 'x']) for (const b of o.buckets) for (const mode of ['equal-width', 'equal-frequency']) await ask(`${P}_histogram`, { ...base, column: c, buckets: b, mode, where: w }, d => J.histogram(rs, d, c, b, mode));
				for (const cs of [['n', 'x'], ['x', 'k', 'n']]) for (const m of ['pearson', 'spearman']) await ask(`${P}_correlation_matrix`, { ...base, columns: cs, method: m, where: w }, d => J.correlation(rs, d, cs, m));
				for (const c of ['n', 'x']) for (const [m, k] of [['iqr', 1.5], ['iqr', 0.25], ['zscore', 3], ['zscore', 0.5]] as const) for (const ex of [1, 20]) await ask(`${P}_outliers`, { ...base, column: c, method: m, threshold: k, examples: ex, where: w }, d => J.outliers(rs, d, c, m, k, ex), !o.duckdb);
				for (const y of ['n', 'x']) await ask(`${P}_temporal_trend`, { ...base, timestampColumn: 't', valueColumn: y, where: w }, d => J.trend(rs, d, y));
				if (!o.duckdb) {
					const ts = rs.map(r => r.t); if (new Set(ts).size === ts.length) for (const y of ['n', 'x']) await ask(`${P}_dickey_fuller`, { ...base, timestampColumn: 't', valueColumn: y, where: w }, d => J.dickey(rs, d, y));
					for (const [f, t] of [['n', 's'], ['s', 'n'], ['s', 'x'], ['x', 't']] as const) for (const top of [1, 3]) await ask(`${P}_functional_dependency`, { ...base, fromColumn: f, toColumn: t, topViolations: top, where: w }, d => J.dependency(rs, d, f, t, top));
					await ask(`${P}_temporal_gap_stats`, { ...base, timestampColumn: 't', where: w }, d => J.gaps(rs, d, 2, 10), true);
					await ask(`${P}_explain`, { ...base, queryAst: { kind: 'select', target: base.target, where: w } }, d => typeof d.plan === 'string' && d.plan.length ? undefined : 'no plan');
				}
			}
			await counts(`${P}_aggregate`, base, rows, o.ws, ci);
			for (const c of ['n', 'x', 's']) for (const topN of [1, 2, 20]) await ask(`${P}_distinct`, { ...base, column: c, topN }, d => J.distinct(rows, d, c, topN, !o.duckdb));
			void target;
		};
		// --- SQLite: every table ---
		for (const [i, rows] of small.entries()) if (mine(i)) await table('db_sql', { connectionId: 'lite', target: `t${i}` }, rows, { duckdb: false, clauses: rows.length <= (THOROUGH ? 4 : 3) ? CL : CL.filter((_, j) => j % 5 === i % 5), ws: W2, buckets: [4, 5, 8] });
		for (const [i, rows] of FAR.entries()) if (mine(i)) await table('db_sql', { connectionId: 'lite', target: `far${i}` }, rows, { duckdb: false, clauses: [], ws: [[], [{ column: 'k', op: '<=', value: 5 }]], buckets: [4, 16] });
		// --- files ---
		const DCL = THOROUGH ? CL : CL.filter((_, j) => j % 3 === 0);
		for (const { t, i } of mineMid) await table('db_file', { connectionId: `p${i}` }, t, { duckdb: true, clauses: i < mid.length ? (THOROUGH ? CL : DCL.filter((_, j) => j % 4 === i % 4)) : [], ws: i < mid.length ? (THOROUGH ? W2 : [W2[0]!, W2[1 + i % 3]!]) : [[], [{ column: 'k', op: '<=', value: 5 }]], buckets: i < mid.length ? [4, 5] : [4, 16] });
		for (const { t, i } of texts) for (const kind of ['csv', 'tsv', 'jsonl', 'json']) {
			const base = { connectionId: `x${i}${kind}` }, cmp = COLS.filter(c => c !== 't');
			await ask('db_file_sample', { ...base, limit: 50 }, d => J.sample(t, { ...d, columns: canon(d.columns) === canon(COLS) ? cmp : d.columns }, cmp, 50));
			for (const c of CL.filter((_, j) => j % 9 === i % 9)) await ask('db_file_sample', { ...base, limit: 50, where: [c] }, d => J.sample(keep(t, [c], false), { ...d, columns: cmp }, cmp, 50));
			await ask('db_file_aggregate', { ...base, aggregations: spec(AGG(true)), where: W2[1]! }, aggJudge(keep(t, W2[1]!, false), AGG(true), false));
			await ask('db_file_distinct', { ...base, column: 's', topN: 5 }, d => J.distinct(t, d, 's', 5, false));
			await ask('db_file_describe', base, d => canon(d.columns.map((c: any) => c.name)) === canon(COLS) ? undefined : `columns ${JSON.stringify(d.columns)}`);
			await ask('db_file_temporal_trend', { ...base, timestampColumn: 't', valueColumn: 'x' }, d => J.trend(t, d, 'x'));
			await ask('db_file_sample_shape', { ...base, limit: 50 }, d => { if (d.sampleSize !== t.length) return `sampled ${d.sampleSize} of ${t.length}`; const f = Object.fromEntries(d.fields.map((q: any) => [q.path, q])); for (const c of ['n', 'x', 's']) if (!f[c] || f[c].nullable !== t.some(r => (r as any)[c] === null) || f[c].frequency !== 1) return `field ${c}: ${JSON.stringify(f[c])}`; });
		}
		// --- two tables: what is on the left and not on the right ---
		const two = small.filter(t => t.length <= 2); let q = 0;
		for (const [i, a] of two.entries()) for (const [j, b] of two.entries()) if (mine(q++)) for (const [c, rc] of [['n', 'n'], ['s', 's'], ['n', 'k']] as const) for (const lim of [0, 1, 5]) await ask('db_sql_anti_join', { connectionId: 'lite', leftTarget: `t${i}`, leftColumn: c, rightTarget: `t${j}`, rightColumn: rc, exampleLimit: lim }, d => J.anti(a, b, d, c, rc, lim));
		// --- the same questions in the other engines' SQL, run by DuckDB ---
		const PG = common.POSTGRES_DIALECT, MS = common.MYSQL_DIALECT;
		const runDuck = async (sql: string, values: readonly unknown[]): Promise<any[]> => duck.withConnection(async (c: any) => { const r = await c.runAndReadAll(sql, values as never[]); return r.getRowObjects().map((o: any) => Object.fromEntries(Object.entries(o).map(([k, v]) => [k, typeof v === 'bigint' ? Number(v) : v !== null && typeof v === 'object' ? String(v) : v]))); });
		const lite = new Database(join(D, 'a.db'), { readonly: true });
		const runLite = async (sql: string, values: readonly unknown[]): Promise<any[]> => lite.prepare(sql.replace(/UNIX_TIMESTAMP\(/g, 'unixepoch(')).all(...values);
		const direct = async (dial: any, name: string, run: (s: string, v: readonly unknown[]) => Promise<any[]>, target: string, rows: Row[], ci: boolean, others: [string, Row[]][]): Promise<void> => {
			const deps: any = { target, knownColumns: COLS, dialect: dial, runRows: run, aggregate: async (rq: any) => { const c = common.compileAggregate(target, rq, COLS, dial); return { target, values: common.readAggregateRow((await run(c.text, c.values))[0], c.keys) }; } };
			const say = async (what: string, f: () => Promise<any>, j: (d: any) => string | undefined, may = false): Promise<void> => { chk.evaluations++; let d: any; try { d = await f(); } catch (e: any) { if (!may) fault(`${name}-${what}-fails`, `${name} ${what} fails: ${e?.message}`, { rows }); return; } const w = j(d); if (w) fault(`${name}-${what}-wrong`, `${name} ${what}: ${w}`, { rows, d }); };
			chk.traces++;
			for (const w of W2) {
				const rs = keep(rows, w, ci), where = w.length ? { where: w } : {};
				await say('sample', async () => { const b = common.buildSampleSql(target, { limit: 3, ...where }, COLS, dial); return { rows: await run(b.text, b.values), columns: COLS, truncated: rs.length > 3 }; }, d => J.sample(rs, { ...d, columns: ['k', 'n', 'x', 's'] }, ['k', 'n', 'x', 's'], 3));
				const A = AGG(dial === PG).filter(([f]) => f !== 'composite_distinct_count' || dial === PG);
				await say('aggregate', () => deps.aggregate({ aggregations: spec(A), ...where }), aggJudge(rs, A, ci));
				await say('count_where', () => deps.aggregate({ aggregations: [{ column: 'p', function: 'count_where', args: { predicate: [{ column: 'n', op: 'in', value: [1, 2] }] } }], ...where }), d => !rs.length || Object.values(d.values)[0] === keep(rs, [{ column: 'n', op: 'in', value: [1, 2] }], ci).length ? undefined : JSON.stringify(d.values));
				for (const mode of ['equal-width', 'equal-frequency']) await say('histogram', () => common.executeHistogram({ column: 'x', buckets: 4, mode, ...where }, deps), d => J.histogram(rs, d, 'x', 4, mode));
				for (const m of ['pearson', 'spearman']) await say('correlation', () => common.executeCorrelationMatrix({ columns: ['n', 'x', 'k'], method: m, ...where }, deps), d => J.correlation(rs, d, ['n', 'x', 'k'], m));
				if (dial === PG) for (const m of ['iqr', 'zscore']) await say('outliers', () => common.executeOutliers({ column: 'n', method: m, threshold: 0.5, examples: 2, ...where }, deps), d => J.outliers(rs, d, 'n', m, 0.5, 2));
				await say('trend', () => common.executeTemporalTrend({ ...deps, request: { timestampColumn: 't', valueColumn: 'n', ...where } }), d => J.trend(rs, d, 'n'));
				const ts = rs.map(r => r.t); if (new Set(ts).size === ts.length && !(dial === PG && ts.includes(null))) await say('dickey-fuller', () => common.executeDickeyFuller({ ...deps, request: { timestampColumn: 't', valueColumn: 'x', ...where } }), d => J.dickey(rs, d, 'x'));
				if (dial === PG) for (const [ratio, top] of [[2, 10], [1.5, 1]] as const) await say('gap-stats', () => common.executeTemporalGapStats({ ...deps, request: { timestampColumn: 't', gapRatio: ratio, topGaps: top, ...where } }), d => J.gaps(rs, d, ratio, top));
				for (const [f, t] of [['n', 's'], ['s', 'x']] as const) await say('dependency', () => common.executeFunctionalDependency({ fromColumn: f, toColumn: t, topViolations: 2, ...where }, deps), d => J.dependency(rs, d, f, t, 2));
			}
			for (const c of ['n', 's']) await say('distinct', async () => { const z = common.compileDistinct(target, { column: c, topN: 2 }, COLS, dial); return { distinctCount: common.readDistinctCount((await run(z.distinctCountSql, []))[0]), topValues: common.readDistinctRows(await run(z.topValuesSql, [])) }; }, d => J.distinct(rows, d, c, 2, dial !== PG));
			for (const [o, ors] of others) await say('anti-join', () => common.executeAntiJoin({ leftTarget: target, leftColumn: 'n', rightTarget: o, rightColumn: 'n', exampleLimit: 2 }, { dialect: dial, describe: async () => ({ columns: COLS.map(n => ({ name: n })) }), runRows: run }), d => J.anti(rows, ors, d, 'n', 'n', 2));
		};
		await duck.withConnection(async (c: any) => { for (const { t, i } of mineMid) { await c.run(`CREATE OR REPLACE TABLE q${i} AS SELECT * FROM read_parquet('${join(D, `p${i}.parquet`)}')`); void t; } });
		for (const [z, { t, i }] of mineMid.entries()) if (THOROUGH || i % 2 === 0 || i >= mid.length) { const o = mineMid[(z + 1) % mineMid.length]!; await direct(PG, 'postgres-sql', runDuck, `q${i}`, t, false, [[`q${o.i}`, o.t]]); }
		for (const [i, rows] of small.entries()) if (mine(i) && rows.length <= 3) await direct(MS, 'mysql-sql', runLite, `t${i}`, rows, true, [['t1', small[1]!]]);
		lite.close();
		// --- schemas, listings, names ---
		if (mine(0)) {
			await ask('db_sql_describe', { connectionId: 'lite', target: 'parent' }, d => canon(d.columns.map((c: any) => [c.name, c.type, c.nullable === true, c.primaryKey === true])) === canon([['id', 'INTEGER', false, true], ['a', 'TEXT', false, true], ['b', 'REAL', true, false]]) ? undefined : JSON.stringify(d.columns));
			await ask('db_sql_describe', { connectionId: 'lite', target: 'child' }, d => canon(d.columns.map((c: any) => [c.name, c.primaryKey === true, c.nullable === true, c.foreignKey ? `${c.foreignKey.table}.${c.foreignKey.column}` : ''])) === canon([['id', true, true, ''], ['p', false, true, 't1.k'], ['note', false, false, ''], ['any', false, true, '']]) ? undefined : JSON.stringify(d.columns));
			await ask('db_sql_list_indexes', { connectionId: 'lite', target: 'child' }, d => canon(d.indexes.map((x: any) => [x.name, x.columns, x.unique, x.primaryKey]).sort()) === canon([['child_any', ['any'], false, false], ['child_p_note', ['note', 'p'], true, false]]) ? undefined : JSON.stringify(d.indexes));
			await ask('db_sql_list_indexes', { connectionId: 'lite', target: 'parent' }, d => d.indexes.length === 1 && canon(d.indexes[0].columns) === canon(['id', 'a']) && d.indexes[0].primaryKey && d.indexes[0].unique ? undefined : JSON.stringify(d.indexes));
			const names = asc([...small.map((_, i) => `t${i}`), ...FAR.map((_, i) => `far${i}`), 'parent', 'child', 'vw', 'order', 'wide', 'big']);
			for (const limit of [undefined, 3, names.length, names.length - 1, 5000]) await ask('db_sql_list_tables', { connectionId: 'lite', ...(limit ? { limit } : {}) }, d => canon(asc(d.tables.map((t: any) => t.name))) === canon(asc(names.slice(0, limit ?? 500))) && d.truncated === (names.length > (limit ?? 500)) && d.tables.every((t: any) => t.kind === (t.name === 'vw' ? 'view' : 'table')) ? undefined : `${d.tables.length} of ${names.length} truncated ${d.truncated}`);
			for (const id of ['db_sql_describe', 'db_sql_list_indexes', 'db_sql_sample', 'db_sql_distinct']) await ask(id, { connectionId: 'lite', target: 'order', limit: 5, column: 'v' }, d => id === 'db_sql_describe' ? (d.columns.length === 2 ? undefined : 'columns') : id === 'db_sql_list_indexes' ? (d.indexes.length === 1 && d.indexes[0].name === 'idx-dash' && canon(d.indexes[0].columns) === canon(['v']) ? undefined : JSON.stringify(d)) : id === 'db_sql_sample' ? (canon(d.rows) === canon([{ k: 1, v: 'one' }]) ? undefined : JSON.stringify(d.rows)) : undefined);
			for (const limit of [1, 49, 50]) await ask('db_sql_sample', { connectionId: 'lite', target: 'wide', limit }, d => d.rows.length === limit && d.truncated ? undefined : `${d.rows.length} rows`);
			await ask('db_sql_distinct', { connectionId: 'lite', target: 'wide', column: 'm' }, d => d.distinctCount === 7 && d.topValues.length === 7 ? undefined : JSON.stringify(d));
			// integers beyond what a double holds are told apart
			await ask('db_sql_sample', { connectionId: 'lite', target: 'big', limit: 10 }, d => canon(d.rows.map((r: any) => String(r.id))) === canon(['9007199254740993', '9007199254740993', '9007199254740992', '-9223372036854775808']) ? undefined : `ids ${d.rows.map((r: any) => r.id)}`);
			await ask('db_sql_distinct', { connectionId: 'lite', target: 'big', column: 'id', topN: 5 }, d => canon(d.topValues.map((r: any) => [String(r.value), r.count])) === canon([['9007199254740993', 2], ['-9223372036854775808', 1], ['9007199254740992', 1]]) ? undefined : JSON.stringify(d.topValues));
			await ask('db_sql_functional_dependency', { connectionId: 'lite', target: 'big', fromColumn: 'id', toColumn: 'm' }, d => d.totalGroups === 3 && canon(d.topViolations.map((v: any) => [String(v.fromValue), asc(v.toSample)])) === canon([['9007199254740993', ['p', 'q']]]) ? undefined : JSON.stringify(d));
			await ask('db_list_connections', {}, d => { const l = (d.connections ?? d) as any[]; return canon(asc(l.map((c: any) => c.id))) === canon(asc(conns.map(c => c.id))) ? undefined : 'connections differ'; });
			// files
			const list = async (id: string, extra: any, want: string[], trunc: boolean): Promise<void> => ask('db_file_list_files', { connectionId: id, ...extra }, d => canon(asc(d.files.map((f: any) => f.path))) === canon(asc(want)) && d.truncated === trunc && d.files.every((f: any) => f.size === statSync(join(D, 'dir', f.path)).size) ? undefined : `${JSON.stringify(d.files.map((f: any) => f.path))} truncated ${d.truncated}, want ${JSON.stringify(want)} ${trunc}`);
			await list('dir', {}, ['a.csv', 'b.csv', 'c.txt'], false); await list('dirr', {}, ['a.csv', 'b.csv', 'c.txt', 'sub/d.csv'], false); await list('dirr', { pattern: '*.csv' }, ['a.csv', 'b.csv', 'sub/d.csv'], false); await list('dirr', { pattern: '?.txt' }, ['c.txt'], false);
			await list('dir', { limit: 2 }, ['a.csv', 'b.csv'], true); await list('dir', { limit: 3 }, ['a.csv', 'b.csv', 'c.txt'], false); await list('dir', { limit: 2, pattern: '*.csv' }, ['a.csv', 'b.csv'], false);
			const rowsOf = async (id: string, want: any[]): Promise<void> => ask('db_file_sample', { connectionId: id, limit: 50 }, d => canon(d.rows.map((r: any) => canon(r)).sort()) === canon(want.map(r => canon(r)).sort()) ? undefined : `${JSON.stringify(d.rows)}, want ${JSON.stringify(want)}`);
			await rowsOf('one', [{ k: 1, s: 'one' }]); await rowsOf('star', [{ k: 3, s: 'three' }]); await rowsOf('semi', [{ k: 1, s: 'a;b' }, { k: 2, s: 'c' }]); await rowsOf('raw', [{ column0: 1, column1: 'a' }, { column0: 2, column1: 'b' }]);
			await rowsOf('hive', [{ k: 23, y: 2023 }, { k: 24, y: 2024 }]); await rowsOf('rel', [{ k: 2, s: 'two' }]); await rowsOf('dots', [{ k: 5 }]);
			await rowsOf('docs', [{ a: 1, b: { c: 'x', d: null } }, { a: 2, b: { c: 'y', d: 1.5 } }, { a: null, b: { c: 'z', d: 2.5 } }]);
			await ask('db_file_sample_shape', { connectionId: 'docs', limit: 50 }, d => canon(Object.fromEntries(d.fields.map((f: any) => [f.path, [f.types, f.nullable, f.frequency]]))) === canon({ a: [['null', 'number'], true, 1], b: [['object'], false, 1], 'b.c': [['string'], false, 1], 'b.d': [['null', 'number'], true, 1] }) ? undefined : JSON.stringify(d.fields));
			// --- refusals ---
			for (const [id, input] of [['db_sql_describe', {}], ['db_sql_sample', { limit: 5 }], ['db_sql_aggregate', { aggregations: [{ column: 'n', function: 'sum' }] }], ['db_sql_distinct', { column: 'n' }], ['db_sql_histogram', { column: 'n' }], ['db_sql_correlation_matrix', { columns: ['n', 'x'] }], ['db_sql_temporal_trend', { timestampColumn: 't', valueColumn: 'n' }], ['db_sql_dickey_fuller', { timestampColumn: 't', valueColumn: 'n' }], ['db_sql_functional_dependency', { fromColumn: 'n', toColumn: 's' }], ['db_sql_list_indexes', {}]] as [string, any][]) {
				for (const target of ['t1; DROP TABLE t2', 't1 --', '"t1"', 't1 WHERE 1=1', "t1'", 'a.b.c', '', '(SELECT 1)', 't1) UNION SELECT * FROM (t2']) await refuse(id, { ...input, connectionId: 'lite', target }, `the target ${target}`);
				if (id !== 'db_sql_list_indexes') await refuse(id, { ...input, connectionId: 'lite', target: 'no_such' }, 'a table that does not exist');
				await refuse(id, { ...input, connectionId: 'dir', target: 't1' }, 'a connection of another family'); await refuse(id, { ...input, connectionId: 'nope', target: 't1' }, 'an unknown connection'); await refuse(id, { ...input, connectionId: 'lite', target: 't1' }, 'no repository', {});
				await refuse(id, { ...input, connectionId: 'outdb', target: 't1' }, 'a database outside the repository');
				for (const colname of ['nope', 'n"; DROP TABLE t2; --', 'n FROM t1; --', '*', '(SELECT 1)']) {
					const swap = JSON.parse(JSON.stringify(input)); for (const k of ['column', 'fromColumn', 'toColumn', 'timestampColumn', 'valueColumn']) if (k in swap) await refuse(id, { ...swap, [k]: colname, connectionId: 'lite', target: 't1' }, `${k} ${colname}`);
					if (swap.aggregations) for (const fn of ['sum', 'min', 'count_non_null', 'distinct_count']) await refuse(id, { aggregations: [{ column: colname, function: fn }], connectionId: 'lite', target: 't1' }, `${fn} of ${colname}`);
					if (swap.aggregations) { await refuse(id, { aggregations: [{ column: 'c', function: 'composite_distinct_count', args: { columns: ['n', colname] } }], connectionId: 'lite', target: 't1' }, `composite of ${colname}`); await refuse(id, { aggregations: [{ column: 'c', function: 'count_where', args: { predicate: [{ column: colname, op: '=', value: 1 }] } }], connectionId: 'lite', target: 't1' }, `predicate on ${colname}`); }
					if (swap.columns) await refuse(id, { columns: ['n', colname], connectionId: 'lite', target: 't1' }, `column ${colname}`);
					if (!['db_sql_describe', 'db_sql_list_indexes', 'db_sql_distinct'].includes(id)) { await refuse(id, { ...swap, where: [{ column: colname, op: '=', value: 1 }], connectionId: 'lite', target: 't1' }, `a filter on ${colname}`); await refuse(id, { ...swap, where: [{ column: 'n', op: '=', valueColumn: colname }], connectionId: 'lite', target: 't1' }, `a filter against ${colname}`); }
				}
			}
			for (const id of ['db_file_sample', 'db_file_describe', 'db_file_aggregate', 'db_file_distinct', 'db_file_histogram']) { const input = { limit: 5, aggregations: [{ column: '*', function: 'count' }], column: 'k' }; for (const c of ['out', 'nope', 'lite']) await refuse(id, { ...input, connectionId: c }, `connection ${c}`); await refuse(id, { ...input, connectionId: 'dir' }, 'no repository', {}); if (id !== 'db_file_describe' && id !== 'db_file_aggregate' && id !== 'db_file_sample') await refuse(id, { ...input, column: 'zzz', connectionId: 'one' }, 'an unknown column'); await refuse(id, { ...input, connectionId: 'one' }, 'a repository without connections', { repoPath: join(SCRATCH, 'other') }); }
			for (const [fn, args] of [['percentile', {}], ['percentile', { p: 2 }], ['median', {}], ['composite_distinct_count', { columns: ['n'] }], ['count_where', {}], ['count_where', { predicate: [] }]] as [string, any][]) await refuse('db_sql_aggregate', { connectionId: 'lite', target: 't1', aggregations: [{ column: 'n', function: fn, args }] }, `${fn} ${JSON.stringify(args)}`);
			for (const w of [{ column: 'n', op: 'in', value: [] }, { column: 'n', op: 'in', value: 3 }, { column: 'n', op: 'between', value: [1] }, { column: 'n', op: 'between', value: 1 }, { column: 's', op: 'like', value: 4 }]) await refuse('db_sql_sample', { connectionId: 'lite', target: 't1', limit: 5, where: [w] }, `the filter ${JSON.stringify(w)}`);
		}
		const after = digest(); chk.states += small.length + mineMid.length + texts.length * 4;
		if (after !== before) fault('data-changed', 'asking questions changed the data', {});
		void bad;
	});
	chk.extra['bounds'] = `tables of up to ${THOROUGH ? 5 : 4} rows over a 6-row alphabet in SQLite, up to ${THOROUGH ? 4 : 3} in Parquet, up to 3 in CSV/TSV/JSON/JSONL; ${CL.length} filter clauses, ${W2.length} request filters`;
	chk.assumptions = ['SQLite and DuckDB evaluate SQL correctly; the MySQL and PostgreSQL texts are run by SQLite and DuckDB, whose dialects they share for these queries', 'no server database is available offline: the MSSQL and Oracle texts are not executed'];
	chk.finish();
});
void product;
