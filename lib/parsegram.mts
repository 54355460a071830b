// A tiny algebra for writing source programs together with what a parser must report about them.
// A program is a list of pieces; a piece is some source lines plus the declarations and relations those lines
// contain, written down from the documentation of each parser (not from its code).
export type Handle = { kind: string; name: string; start: number[]; end: number; attrs: Record<string, unknown> };
export type Rel = { kind: string; from: Handle | 'file'; to: string | Handle; how: 'ent' | 'mod' | 'raw' };
export class Builder {
  ents: Handle[] = []; rels: Rel[] = []; mods = new Set<string>(); noise: [number, number][] = [];
  base = 1;
  /** a declaration on lines a..b of the piece (1-based, relative) */
  ent(kind: string, name: string, a: number | number[], b: number, attrs: Record<string, unknown> = {}): Handle {
    const h = { kind, name, start: (Array.isArray(a) ? a : [a]).map(x => x + this.base - 1), end: b + this.base - 1, attrs };
    this.ents.push(h); return h;
  }
  def(from: Handle | 'file', to: Handle) { this.rels.push({ kind: 'DEFINES', from, to, how: 'ent' }); }
  mod(from: Handle | 'file', name: string) { this.mods.add(name); this.rels.push({ kind: 'IMPORTS', from, to: name, how: 'mod' }); }
  raw(kind: string, from: Handle | 'file', to: string) { this.rels.push({ kind, from, to, how: 'raw' }); }
  /** lines whose content is not described: entities lying inside them are left alone */
  skip(a: number, b: number) { this.noise.push([a + this.base - 1, b + this.base - 1]); }
}
export type Piece = { id: string; src: string[]; exp: (b: Builder, u: (s: string) => string) => void; top?: boolean };
export const P = (id: string, src: string, exp: Piece['exp'] = () => {}, top = false): Piece => ({ id, src: src.split('\n'), exp, top });

/** Put pieces one after another, giving every copy its own names ('$' becomes the copy's number). */
export function compose(pieces: Piece[], sep: string[] = [], open: string[] = [], close: string[] = []) {
  const b = new Builder(); const lines: string[] = [...open];
  pieces.forEach((p, i) => {
    if (i) lines.push(...sep);
    const u = (s: string) => s.replaceAll('$', String(i + 1));
    b.base = lines.length + 1;
    lines.push(...p.src.map(u));
    p.exp(b, u);
  });
  lines.push(...close);
  return { text: lines.join('\n') + '\n', b };
}

type Ent = { id: string; kind: string; name: string; file: string; repo: string; repoId: number; language: string; startLine: number; endLine: number; body: string; [k: string]: unknown };
type Rl = { kind: string; from: string; to: string; resolved?: boolean; meta?: Record<string, unknown> };

/** Compare what a parse reported with what the program contains; null = equal. `rels` = relation kinds described by the program. */
export function judge(out: { entities: Ent[]; relations: Rl[] }, b: Builder, text: string, o: { path: string; repo: string; repoId: number; lang: string; rels: string[]; kinds: string[] }): string | null {
  const lines = text.split('\n');
  const inNoise = (a: number, z: number) => b.noise.some(([x, y]) => a >= x && z <= y);
  const file = out.entities.filter(e => e.kind === 'file');
  if (file.length !== 1 || file[0]!.file !== o.path || file[0]!.repo !== o.repo || file[0]!.repoId !== o.repoId || file[0]!.language !== o.lang || file[0]!.startLine !== 1 || file[0]!.endLine !== lines.length) return `the file itself is described as ${JSON.stringify(file.map(f => [f.file, f.repo, f.repoId, f.language, f.startLine, f.endLine]))}`;
  const ids = new Map<string, Ent>();
  for (const e of out.entities) {
    if (ids.has(e.id)) return `two entities share the id of ${e.kind} ${e.name}`;
    ids.set(e.id, e);
  }
  const byHandle = new Map<Handle, Ent>(); const used = new Set<string>();
  for (const h of b.ents) {
    const got = out.entities.filter(e => e.kind === h.kind && e.name === h.name && h.start.includes(e.startLine) && e.endLine === h.end);
    if (got.length !== 1) {
      const near = out.entities.filter(e => e.name === h.name || e.name.endsWith(`.${h.name}`)).map(e => `${e.kind} ${e.name} ${e.startLine}-${e.endLine}`);
      return `${h.kind} ${h.name} on lines ${h.start.join('|')}-${h.end} is reported ${got.length} times (${near.join(', ') || 'nothing of that name'})`;
    }
    const e = got[0]!; byHandle.set(h, e); used.add(e.id);
    if (e.repo !== o.repo || e.repoId !== o.repoId || e.file !== o.path || e.language !== o.lang) return `${h.kind} ${h.name} is attributed to ${e.repo} #${e.repoId} ${e.file} ${e.language}`;
    for (const [k, v] of Object.entries(h.attrs)) {
      const g = e[k];
      if (typeof v === 'boolean' ? !!g !== v : v instanceof RegExp ? !v.test(String(g)) : g !== v) return `${h.kind} ${h.name} has ${k} = ${JSON.stringify(g)}, expected ${v instanceof RegExp ? v : JSON.stringify(v)}`;
    }
    const span = lines.slice(e.startLine - 1, e.endLine).join('\n');
    if (h.attrs['body'] === undefined && (!e.body || !span.includes(e.body))) return `${h.kind} ${h.name}'s body is not the text of its lines`;
  }
  for (const e of out.entities) {
    if (e.kind === 'file' || used.has(e.id)) continue;
    if (e.kind === 'module') { if (!b.mods.has(e.name)) return `module ${e.name} is reported but never named`; continue; }
    if (inNoise(e.startLine, e.endLine) || !o.kinds.includes(e.kind)) continue;
    return `${e.kind} ${e.name} on lines ${e.startLine}-${e.endLine} is reported but not declared`;
  }
  const mods = out.entities.filter(e => e.kind === 'module').map(e => e.name);
  for (const m of b.mods) if (mods.filter(x => x === m).length !== 1) return `module ${m} is reported ${mods.filter(x => x === m).length} times`;
  const fileId = file[0]!.id;
  const nameOf = (id: string) => { const e = ids.get(id); return e ? (e.kind === 'file' ? 'file' : e.kind === 'module' ? `module ${e.name}` : `${e.kind} ${e.name}@${e.startLine}`) : `?${id}`; };
  const want = new Set<string>(), got = new Set<string>();
  for (const r of b.rels) {
    const f = r.from === 'file' ? fileId : byHandle.get(r.from)!.id;
    const t = r.how === 'mod' ? `module ${r.to as string}` : r.how === 'raw' ? `"${r.to as string}"` : nameOf(byHandle.get(r.to as Handle)!.id);
    want.add(`${r.kind} ${nameOf(f)} -> ${t}`);
  }
  for (const r of out.relations) {
    if (!o.rels.includes(r.kind)) continue;
    const fe = ids.get(r.from), te = ids.get(r.to);
    if (fe && fe.kind !== 'file' && !used.has(r.from) && inNoise(fe.startLine, fe.endLine)) continue;
    if (te && te.kind !== 'module' && !used.has(r.to) && inNoise(te.startLine, te.endLine)) continue;
    if (r.kind === 'DEFINES' && !o.kinds.includes(te?.kind ?? '')) continue;
    const t = r.resolved === true || te ? nameOf(r.to) : `"${r.to}"`;
    got.add(`${r.kind} ${nameOf(r.from)} -> ${t}`);
  }
  for (const w of want) if (!got.has(w)) return `${w} is not reported (reported: ${[...got].filter(g => g.split(' ')[0] === w.split(' ')[0]).join('; ') || 'none of that kind'})`;
  for (const g of got) if (!want.has(g)) return `${g} is reported but not in the source`;
  return null;
}
