import { readFileSync, writeFileSync, existsSync, readdirSync } from 'node:fs';
import { dirname, join } from 'node:path';
import { P } from './props.mjs';
const T = dirname(new URL(import.meta.url).pathname), V = dirname(T);
P.sort((a, b) => (a.id < b.id ? -1 : 1));
const out = [readFileSync(join(T, 'design-head.md'), 'utf8').trimEnd(), '', '## 5. Properties', ''];
for (const p of P) {
	const claimed = !p.na && (existsSync(join(V, 'checks', p.id + '.mts')) || existsSync(join(V, 'checks', p.id + '.py')));
	out.push(`### ${p.id} — ${p.title}`, '', p.statement, '');
	if (!claimed) { out.push(`*Not claimed:* ${p.na ?? 'no check yet'}`, ''); continue; }
	out.push(`- *Explored:* ${p.text}.`, `- *How:* ${p.technique} (level ${p.level}).`, `- *Why tests cannot settle it:* ${p.why}`, `- *Limits:* ${p.note}`, `- *Anchored in:* ${p.files.map(f => '`' + f + '`').join(', ')}`, '');
}
const K = readFileSync(join(V, 'known_findings.jsonl'), 'utf8').split('\n').filter(Boolean).map(l => JSON.parse(l));
out.push('## 6. Genuine defects found', '', 'Repaired, each in its own `fix:` commit in /repo (the hash given); every check passes on the repaired tree and, as was verified by reversing the fix, reports the violation again when it returns:', '');
for (const k of K.filter(k => k.status === 'fixed')) out.push(`- ${k.what.replace(/^fixed: property=/, '')}`);
const open = K.filter(k => k.status !== 'fixed');
out.push('', open.length ? 'Recorded, not repaired:' : 'No finding is recorded unrepaired.', '');
for (const k of open) out.push(`- ${k.property}: ${k.what}`);
out.push('', '## 7. Planted bugs and mutation testing', '', 'Planted bugs (`seeded/`), written from the property text and the code; all pass the existing tests, and each is caught by the quick check of its property unless noted:', '', '| bug | property | needs | breaks | caught |', '|---|---|---|---|---|');
const missed = existsSync(join(T, 'missed.json')) ? JSON.parse(readFileSync(join(T, 'missed.json'), 'utf8')) : {};
for (const d of existsSync(join(V, 'seeded')) ? readdirSync(join(V, 'seeded')).sort() : []) {
	const m = JSON.parse(readFileSync(join(V, 'seeded', d, 'meta.json'), 'utf8'));
	out.push(`| ${d} | ${m.property} | ${m.needs} | ${m.what_it_breaks} | ${missed[d] ?? 'yes'} |`);
}
out.push('', readFileSync(join(T, 'mutation.md'), 'utf8').trimEnd(), '', readFileSync(join(T, 'design-tail.md'), 'utf8').trimEnd(), '');
writeFileSync(join(V, 'DESIGN.md'), out.join('\n'));
