import { writeFileSync, existsSync } from 'node:fs';
import { P } from './props.mjs';
import { dirname, join } from 'node:path';
const V = dirname(dirname(new URL(import.meta.url).pathname));
P.sort((a, b) => (a.id < b.id ? -1 : 1));
for (const p of P) {
	const n = p.statement.split(/(?<=[.!?])\s+(?=[A-Z])/).length; if (n > 3) console.error(`${p.id}: ${n} sentences`);
	if (p.title.length > 80) console.error(`${p.id}: title ${p.title.length}`);
	for (const f of p.files) if (!existsSync(join('/repo', f))) console.error(`${p.id}: no ${f}`);
}
writeFileSync(join(V, 'properties.jsonl'), P.map(p => JSON.stringify({ id: p.id, title: p.title, statement: p.statement, quantifier: { over: p.over, text: p.text }, why_tests_cant: p.why, anchors: { files: p.files, mechanism: p.mechanism, ...(p.observe ? { observe_at: p.observe } : {}), hook_needed: null } })).join('\n') + '\n');
const claimed = P.filter(p => !p.na && (existsSync(join(V, 'checks', p.id + '.mts')) || existsSync(join(V, 'checks', p.id + '.py'))));
writeFileSync(join(V, 'MANIFEST.json'), JSON.stringify({
	version: 1, setup_cmd: './setup.sh', hooks: { guard: 'INSRC_MC_HOOKS', enable: 'no hooks are needed: the checks import the unmodified modules of /repo and wrap their injected dependencies from outside', source_commits: [] },
	checks: claimed.map(p => ({ property: p.id, quick_cmd: `./run.sh ${p.id}`, thorough_cmd: `VERIF_TIER=thorough ./run.sh ${p.id}`, technique: p.technique, level: p.level, level_note: p.note })),
	not_applicable: P.filter(p => !claimed.includes(p)).map(p => ({ property: p.id, reason: p.na ?? 'no check yet' })),
}, null, 1) + '\n');
console.log(P.length, 'properties,', claimed.length, 'checks');
