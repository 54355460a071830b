// In-memory stand-in for @lancedb/lancedb: same table contract (add never dedupes, mergeInsert upserts by key,
// delete by predicate, exact KNN ordering by squared L2 distance), all state in `tables` so a checker can dump/restore it.
export const tables = new Map(); // `${path}|${name}` -> row[]
export const stats = { ops: 0, failNext: null };

function tokenize(s) {
	const t = []; let i = 0;
	while (i < s.length) {
		const c = s[i];
		if (/\s/.test(c)) { i++; continue; }
		if (c === "'") { let v = ''; i++; for (;;) { if (i >= s.length) throw new Error('lance-stub: unterminated string in ' + s); if (s[i] === "'") { if (s[i + 1] === "'") { v += "'"; i += 2; continue; } i++; break; } v += s[i++]; } t.push({ k: 'lit', v }); continue; }
		if (c === '"' || c === '`') { let j = s.indexOf(c, i + 1); t.push({ k: 'id', v: s.slice(i + 1, j) }); i = j + 1; continue; }
		let m = /^(<=|>=|!=|<>|=|<|>|\(|\)|,)/.exec(s.slice(i)); if (m) { t.push({ k: 'op', v: m[1] }); i += m[1].length; continue; }
		m = /^-?\d+(\.\d+)?/.exec(s.slice(i)); if (m) { t.push({ k: 'lit', v: Number(m[0]) }); i += m[0].length; continue; }
		m = /^[A-Za-z_][A-Za-z0-9_.]*/.exec(s.slice(i)); if (m) {
			const w = m[0].toLowerCase();
			if (w === 'true' || w === 'false') t.push({ k: 'lit', v: w === 'true' });
			else if (['and', 'or', 'in', 'not', 'is', 'null', 'like'].includes(w)) t.push({ k: 'kw', v: w });
			else t.push({ k: 'id', v: m[0] });
			i += m[0].length; continue;
		}
		throw new Error('lance-stub: bad predicate ' + s);
	}
	return t;
}
export function compile(pred) {
	const t = tokenize(pred); let p = 0;
	const eat = (k, v) => (t[p] && t[p].k === k && (v === undefined || t[p].v === v) ? t[p++] : null);
	const need = (k, v) => { const x = eat(k, v); if (!x) throw new Error('lance-stub: parse ' + pred + ' at ' + p); return x; };
	const or = () => { let a = and(); while (eat('kw', 'or')) { const l = a, b = and(); a = r => l(r) || b(r); } return a; };
	const and = () => { let a = un(); while (eat('kw', 'and')) { const l = a, b = un(); a = r => l(r) && b(r); } return a; };
	const un = () => { if (eat('kw', 'not')) { const a = un(); return r => !a(r); } if (eat('op', '(')) { const a = or(); need('op', ')'); return a; } return cmp(); };
	const cmp = () => {
		const id = need('id').v;
		let neg = false;
		if (eat('kw', 'is')) { if (eat('kw', 'not')) neg = true; need('kw', 'null'); return r => (r[id] == null) !== neg; }
		if (eat('kw', 'not')) neg = true;
		if (eat('kw', 'in')) { need('op', '('); const vs = []; do { vs.push(need('lit').v); } while (eat('op', ',')); need('op', ')'); return r => vs.includes(r[id]) !== neg; }
		const op = need('op').v; const v = need('lit').v;
		return r => { const a = r[id]; switch (op) { case '=': return a === v; case '!=': case '<>': return a !== v; case '<': return a < v; case '<=': return a <= v; case '>': return a > v; case '>=': return a >= v; } throw new Error('op'); };
	};
	const f = or(); if (p !== t.length) throw new Error('lance-stub: trailing ' + pred);
	return f;
}
const cp = r => ({ ...r });
class Q {
	constructor(tb, vec) { this.tb = tb; this.vec = vec; this.pred = () => true; this.n = vec ? 10 : Infinity; }
	where(s) { this.pred = compile(s); return this; }
	filter(s) { return this.where(s); }
	limit(n) { this.n = n; return this; }
	offset(n) { this.off = n; return this; }
	select(c) { this.cols = c; return this; }
	distanceType() { return this; }
	async toArray() {
		hit();
		let rows = this.tb.rows().filter(this.pred).map(cp);
		if (this.vec) {
			for (const r of rows) { let d = 0; const e = r.embedding ?? r.vector ?? []; for (let i = 0; i < this.vec.length; i++) { const x = (e[i] ?? 0) - this.vec[i]; d += x * x; } r._distance = d; }
			rows = rows.map((r, i) => [r, i]).sort((a, b) => a[0]._distance - b[0]._distance || a[1] - b[1]).map(x => x[0]);
		}
		if (this.off) rows = rows.slice(this.off);
		if (this.n !== Infinity) rows = rows.slice(0, this.n);
		if (this.cols) rows = rows.map(r => Object.fromEntries(this.cols.map(c => [c, r[c]])));
		return rows;
	}
}
function hit() { stats.ops++; if (stats.failNext && stats.failNext(stats.ops)) throw new Error('lance-stub: injected failure'); }
class Table {
	constructor(key, name) { this.key = key; this.name = name; }
	rows() { let r = tables.get(this.key); if (!r) tables.set(this.key, r = []); return r; } // a checker may have restored a state without this table
	async add(rows) { hit(); this.rows().push(...[...rows].map(cp)); }
	mergeInsert(col) {
		const self = this; let upd = false, ins = false;
		const b = {
			whenMatchedUpdateAll() { upd = true; return b; }, whenNotMatchedInsertAll() { ins = true; return b; },
			async execute(rows) {
				hit();
				const cur = self.rows();
				for (const r of rows) {
					let m = false;
					for (let i = 0; i < cur.length; i++) if (cur[i][col] === r[col]) { m = true; if (upd) cur[i] = cp(r); }
					if (!m && ins) cur.push(cp(r));
				}
			},
		};
		return b;
	}
	async update(a) { hit(); const f = a.where ? compile(a.where) : () => true; for (const r of this.rows()) if (f(r)) Object.assign(r, a.values ?? {}); }
	async delete(pred) { hit(); const f = compile(pred); const cur = this.rows(); tables.set(this.key, cur.filter(r => !f(r))); }
	async countRows(pred) { hit(); return pred ? this.rows().filter(compile(pred)).length : this.rows().length; }
	search(v) { return new Q(this, [...v]); }
	vectorSearch(v) { return new Q(this, [...v]); }
	query() { return new Q(this, null); }
	async optimize() { hit(); return { compaction: { fragmentsRemoved: 0, filesRemoved: 0 }, prune: {} }; }
	async listIndices() { return []; }
	async createIndex() {}
	async schema() { return { fields: Object.keys(this.rows()[0] ?? {}).map(name => ({ name })) }; }
	close() {}
}
class Connection {
	constructor(path) { this.path = path; }
	async tableNames() { hit(); return [...tables.keys()].filter(k => k.startsWith(this.path + '|')).map(k => k.slice(this.path.length + 1)); }
	async openTable(name) { hit(); const k = `${this.path}|${name}`; if (!tables.has(k)) throw new Error(`Table '${name}' was not found`); return new Table(k, name); }
	async createTable(name, rows) { hit(); const k = `${this.path}|${name}`; if (tables.has(k)) throw new Error(`Table '${name}' already exists`); tables.set(k, [...rows].map(cp)); return new Table(k, name); }
	async dropTable(name) { hit(); tables.delete(`${this.path}|${name}`); }
	close() {}
}
export async function connect(path) { return new Connection(String(path)); }
export const Index = { hnswSq: o => ({ hnswSq: o }), hnswPq: o => ({ hnswPq: o }), ivfPq: o => ({ ivfPq: o }) };
export default { connect, Index };
