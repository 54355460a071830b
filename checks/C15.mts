// C15: amendment records (life cycle, order, immutability), the applier, the effective design and staleness.
import { Check, main, THOROUGH, repo, SCRATCH, canon } from '../lib/mc.mts';
import { World, EPIC, OTHER, AD, defBody, hldBody, errName } from '../lib/wf.mts';
import { createHash } from 'node:crypto';
import { join } from 'node:path';

const J = (v: unknown): string => JSON.stringify(v, null, 2) + '\n';
const clone = (v: any): any => JSON.parse(JSON.stringify(v));
const hashOf = (run: string, ids: readonly string[]): string => createHash('sha256').update([run, ...ids].join('|')).digest('hex');
/** the members an interface sketch declares, asked one name at a time */
const declares = (sketch: string, name: string): boolean => {
	for (let i = sketch.indexOf(name); i >= 0; i = sketch.indexOf(name, i + 1)) {
		const w = /[A-Za-z0-9_]/, before = i > 0 && w.test(sketch[i - 1]!) && w.test(name[0]!);
		if (!before && /^\??\s*[:(]/.test(sketch.slice(i + name.length))) return true;
	}
	return false;
};
/** what the record types document: undefined = the amendment must be refused */
function spec(h: any, a: any, id: string): any | undefined {
	const b = clone(h); const sc = a.contractId === undefined ? undefined : b.sharedContracts.find((c: any) => c.id === a.contractId);
	if (a.contractId !== undefined && !sc) return undefined;
	const bound = (s: string): any => b.storyBoundaries.find((x: any) => x.storyId === s);
	const ph = b.rolloutOverview.phases;
	switch (a.type) {
		case 'sharedContract.fieldAdd': if (declares(sc.interfaceSketch, a.field.name)) return undefined; sc.interfaceSketch += `\n  // + ${a.field.name}${a.field.optional ? '?' : ''}: ${a.field.type};  // ${a.field.purpose} (amend:${id})`; return b;
		case 'sharedContract.fieldRemove': if (a.breaking !== true || a.migrationCue === '' || !declares(sc.interfaceSketch, a.fieldName)) return undefined; sc.interfaceSketch += `\n  // - ${a.fieldName}  removed; ${a.migrationCue} (amend:${id})`; return b;
		case 'sharedContract.rename': if (a.breaking !== true || a.migrationCue === '' || sc.name !== a.oldName || b.sharedContracts.some((c: any) => c !== sc && c.name === a.newName)) return undefined; sc.name = a.newName; return b;
		case 'sharedContract.methodAdd': if (/(^|\W)return(\W|$)/.test(a.method.signature) || /=>\s*\{/.test(a.method.signature) || declares(sc.interfaceSketch, a.method.name)) return undefined; sc.interfaceSketch += `\n  // + ${a.method.signature};  // ${a.method.purpose} (amend:${id})`; return b;
		case 'storyBoundary.reassignOwnership': {
			if (sc.ownedByStory !== a.oldOwner || a.oldOwner === a.newOwner || !bound(a.newOwner)) return undefined;
			sc.ownedByStory = a.newOwner; const o = bound(a.oldOwner); if (o) o.owns = o.owns.filter((x: string) => x !== sc.id); const n = bound(a.newOwner); if (!n.owns.includes(sc.id)) n.owns.push(sc.id); return b;
		}
		case 'storyBoundary.addConsumer': { if (sc.ownedByStory === a.consumer || sc.consumedByStories.includes(a.consumer)) return undefined; sc.consumedByStories.push(a.consumer); const c = bound(a.consumer); if (c && !c.depends.includes(sc.id)) c.depends.push(sc.id); return b; }
		case 'storyBoundary.addStory': if (bound(a.storyId) || (a.depends ?? []).some((d: string) => !b.sharedContracts.some((c: any) => c.id === d))) return undefined; b.storyBoundaries.push({ storyId: a.storyId, owns: a.owns ?? [], depends: a.depends ?? [], internal: a.internal }); return b;
		case 'nonFunctional.retarget': if (b.nonFunctional[a.property] === undefined || b.nonFunctional[a.property] !== a.oldTarget) return undefined; b.nonFunctional[a.property] = a.newTarget; return b;
		case 'rollout.reorder': { const names = ph.map((p: any) => p.name); if (canon([...names].sort()) !== canon([...a.newPhaseOrder].sort())) return undefined; b.rolloutOverview.phases = a.newPhaseOrder.map((n: string) => ph.find((p: any) => p.name === n)); return b; }
		case 'rollout.splitPhase': { const i = ph.findIndex((p: any) => p.name === a.phase); if (i < 0) return undefined; const o = ph[i]; if (canon([...new Set(a.newPhases.flatMap((p: any) => p.includesStories))].sort()) !== canon([...new Set(o.includesStories)].sort())) return undefined; ph.splice(i, 1, ...a.newPhases.map((p: any) => ({ name: p.name, includesStories: p.includesStories, rationale: `${o.rationale} (split from '${a.phase}' by ${id})`, backwardCompat: o.backwardCompat, featureFlag: o.featureFlag }))); return b; }
		case 'rollout.mergePhases': {
			const idx = ph.map((p: any, i: number) => [p.name, i]).filter(([n]: any) => a.phases.includes(n)).map((x: any) => x[1]);
			if (a.phases.length < 2 || idx.length !== a.phases.length || idx.some((x: number, k: number) => k > 0 && x !== idx[k - 1] + 1)) return undefined;
			ph.splice(idx[0], idx.length, { name: a.newPhase.name, includesStories: [...new Set(idx.flatMap((i: number) => ph[i].includesStories))], rationale: `merged from ${a.phases.join(' + ')} by ${id}`, backwardCompat: '', featureFlag: null }); return b;
		}
	}
	return undefined;
}
/** every amendment over small domains, valid and invalid */
function domain(): any[] {
	const out: any[] = []; const SC = ['sc1', 'sc2', 'scX'], ST = ['s1', 's2', 's3', 'sX'];
	for (const contractId of SC) {
		for (const name of ['a', 'b', 'm', 'n', 'On', 'x']) {
			for (const optional of [false, true]) if (!optional || name === 'n') out.push({ type: 'sharedContract.fieldAdd', contractId, field: { name, type: 'T', optional, purpose: 'p' }, breaking: false });
			for (const [breaking, migrationCue] of [[true, 'cue'], [true, ''], [false, 'cue']]) if (breaking && migrationCue || name === 'a') out.push({ type: 'sharedContract.fieldRemove', contractId, fieldName: name, breaking, migrationCue });
			for (const signature of ['(q: number): void', `${name}(): x`, `${name}() { return 1 }`, `${name} = () => { }`]) if (signature[0] !== '(' || name === 'n') out.push({ type: 'sharedContract.methodAdd', contractId, method: { name, signature, purpose: 'p' } });
		}
		for (const oldName of ['One', 'Two', 'Zed']) for (const newName of ['One', 'Two', 'Zed']) out.push({ type: 'sharedContract.rename', contractId, oldName, newName, breaking: true, migrationCue: 'cue' });
		out.push({ type: 'sharedContract.rename', contractId, oldName: 'One', newName: 'New', breaking: true, migrationCue: '' }, { type: 'sharedContract.rename', contractId, oldName: 'One', newName: 'New', breaking: false, migrationCue: 'c' });
		for (const o of ST) for (const n of ST) out.push({ type: 'storyBoundary.reassignOwnership', contractId, oldOwner: o, newOwner: n, rationale: 'r' });
		for (const c of ST) out.push({ type: 'storyBoundary.addConsumer', contractId, consumer: c });
	}
	for (const storyId of ST) for (const depends of [undefined, [], ['sc1'], ['scX']]) out.push({ type: 'storyBoundary.addStory', storyId, internal: 'int', ...(depends ? { depends } : {}), ...(depends?.length ? { owns: ['sc2'] } : {}) });
	for (const property of ['performance', 'security', 'observability']) for (const o of ['fast', 'safe', 'slow']) for (const n of ['slow', 'fast']) out.push({ type: 'nonFunctional.retarget', property, oldTarget: o, newTarget: n, rationale: 'r' });
	for (const o of [['p1', 'p2', 'p3'], ['p3', 'p2', 'p1'], ['p2', 'p3', 'p1'], ['p1', 'p2'], ['p1', 'p2', 'p2'], ['p1', 'p2', 'p9'], ['p1', 'p2', 'p3', 'p4'], ['p12', 'p3'], ['p3', 'p12'], ['p1a', 'p1b', 'p2', 'p3']]) out.push({ type: 'rollout.reorder', newPhaseOrder: o });
	for (const phase of ['p1', 'p2', 'p12', 'p9']) for (const np of [[['p1a', ['s1']], ['p1b', []]], [['p1a', ['s1', 's2']], ['p1b', ['s1']]], [['p1a', ['s1']], ['p1b', ['s2']]], [['p1a', ['s2']]], []]) out.push({ type: 'rollout.splitPhase', phase, newPhases: (np as any[]).map(([name, includesStories]) => ({ name, includesStories })) });
	for (const phases of [['p1', 'p2'], ['p2', 'p1'], ['p2', 'p3'], ['p1', 'p3'], ['p1', 'p2', 'p3'], ['p1'], ['p1', 'p9'], ['p9', 'p8'], [], ['p1', 'p2', 'p2'], ['p1a', 'p1b']]) for (const name of ['p12', 'pm']) if (name === 'p12' || phases.length === 2) out.push({ type: 'rollout.mergePhases', phases, newPhase: { name } });
	out.push({ type: 'no.such' });
	return out;
}
const rec = (n: number, amendment: any, epic = EPIC): any => ({ id: `AMD-${epic}-${n}`, epicHash: epic, epicSlug: 'e', hldBaseRunId: 'run1', amendment, rationale: 'r', citations: [{ id: 'c1' }], proposedBy: { workflow: 'design.story', runId: 'r', storyId: 's1', stepId: 's4' }, proposedAt: '2026-01-01T00:00:00.000Z', status: 'pending' });

main(async () => {
	const chk = new Check('C15', 'model_checking');
	await chk.sharded(async mine => {
		const AP = await repo('src/workflow/amendments/applier.ts'), S = await repo('src/workflow/amendments/store.ts'), EF = await repo('src/workflow/amendments/effective.ts'), G = await repo('src/workflow/gates.ts'), ST = await repo('src/workflow/amendments/staleness.ts'), SV = await repo('src/cli/services/workflow.ts'), L = await repo('src/workflow/artifacts/lld.ts');
		const bad = (key: string, what: string, h: unknown): void => chk.violation(key, what, h);
		let item = 0;
		// ---- 1. the applier against the documented semantics: every sequence over the amendment domain
		const D = domain(); const base = hldBody(); const baseText = canon(base);
		const one = (h: any, seq: any[]): any | undefined => { let cur = h; for (const [i, a] of seq.entries()) { cur = cur === undefined ? undefined : spec(cur, a, `AMD-${EPIC}-${i + 1}`); } return cur; };
		const run = (seq: any[]): void => {
			chk.states++; chk.transitions += seq.length;
			const recs = seq.map((a, i) => ({ ...rec(i + 1, a), status: 'approved' })); const before = canon(recs);
			const want = one(base, seq); let got: any, err: any;
			try { got = AP.applyAmendments(base, recs); } catch (e) { err = e; }
			const last = seq[seq.length - 1].type;
			if (want === undefined ? err === undefined || err.name !== 'AmendmentApplyError' : err !== undefined) return bad(`apply:${last}:${want === undefined ? 'accepted' : 'refused'}`, `applying ${canon(seq)} ${err ? `failed with ${err.name}: ${err.message}` : 'was accepted'}, expected ${want === undefined ? 'AmendmentApplyError' : 'success'}`, seq);
			if (err !== undefined) { const k = seq.findIndex((_, i) => one(base, seq.slice(0, i + 1)) === undefined); if (err.amendmentId !== `AMD-${EPIC}-${k + 1}`) bad('apply-id', `applying ${canon(seq)} blames ${err.amendmentId}, amendment ${k + 1} does not apply`, seq); }
			else if (canon(got) !== canon(want)) return bad(`apply-result:${last}`, `applying ${canon(seq)} gives ${diff(got, want)}`, seq);
			if (canon(base) !== baseText || canon(recs) !== before) bad('apply-pure', `applying ${canon(seq)} changed its input`, seq);
		};
		for (const a of D) { if (mine(item++)) run([a]); }
		// pairs: second amendment against every state the first can reach; triples over amendments that apply
		const ok = D.filter(a => one(base, [a]) !== undefined);
		for (const a of ok) { if (!mine(item++)) continue; for (const b of D) run([a, b]); }
		const pairs = new Map<string, any[]>(); for (const a of ok) for (const b of D) { const r = one(base, [a, b]); if (r !== undefined) { const k = `${a.type}|${b.type}`; const l = pairs.get(k) ?? []; if (l.length < (THOROUGH ? 1e9 : 6)) { l.push([a, b]); pairs.set(k, l); } } }
		for (const l of pairs.values()) for (const p of l) { if (!mine(item++)) continue; for (const c of D) run([...p, c]); }
		for (const a of D.filter(a => a.type.startsWith('sharedContract')).slice(0, 1)) chk.sample({ amendment: a });
		// ---- 2. life cycle: every operation sequence over two epics, real files, approvals through the service
		const RealDate = Date; let now = 1_750_000_000_000;
		class FakeDate extends RealDate { constructor(...a: any[]) { if (a.length) super(...(a as [any])); else super(now); } static override now(): number { return now; } }
		(globalThis as any).Date = FakeDate;
		const w = new World(join(SCRATCH, 'lc', 'repo')); const R = w.root;
		const KIND = [
			{ type: 'nonFunctional.retarget', property: 'performance', oldTarget: 'fast', newTarget: 'slow', rationale: 'r' },
			{ type: 'nonFunctional.retarget', property: 'performance', oldTarget: 'slow', newTarget: 'fast', rationale: 'r' },
			{ type: 'storyBoundary.addStory', storyId: 's3', internal: 'i' },
		];
		type Op = ['propose', number, string] | ['approve' | 'approve-raw' | 'reject' | 'reject-blank', number, string] | ['lld', string] | ['propose-again', number, string] | ['propose-approved', 0, string];
		const OPS: Op[] = [...[0, 1, 2].map(k => ['propose', k, EPIC] as Op), ['propose', 0, OTHER] as Op, ...[1, 2, 3].flatMap(n => [['approve', n, EPIC], ['reject', n, EPIC]] as Op[]), ['approve', 1, OTHER] as Op, ['approve-raw', 1, EPIC] as Op, ['approve', 9, EPIC] as Op, ['reject-blank', 1, EPIC] as Op, ['lld', 's1'] as Op, ['lld', 's2'] as Op, ['propose-again', 1, EPIC] as Op, ['propose-approved', 0, EPIC] as Op];
		interface M { am: Record<string, any[]>; lld: Record<string, string>; }
		const depth = THOROUGH ? 7 : 6; const seen = new Set<string>();
		const hld = { meta: { workflow: 'design.epic', epicHash: EPIC, epicSlug: 'e', runId: 'run1', approvedAt: 'T' }, body: hldBody() };
		const filesOf = (m: M): Record<string, string> => {
			const f: Record<string, string> = { [`${AD}/HLD-${EPIC}.json`]: J(hld), [`${AD}/HLD-${OTHER}.json`]: J({ ...hld, meta: { ...hld.meta, epicHash: OTHER, runId: 'run2' } }), [`${AD}/DEF-${EPIC}.json`]: J({ meta: { approvedAt: 'T' }, body: defBody() }), [`${AD}/AMD-${EPIC}-x.json`]: '{}', [`${AD}/AMD-${EPIC}-7.json.tmp`]: 'torn' };
			for (const l of Object.values(m.am)) for (const r of l) f[`${AD}/${r.id}.json`] = J(r);
			for (const [s, h] of Object.entries(m.lld)) f[`${AD}/LLD-${EPIC}-${s}.json`] = J({ meta: { epicHash: EPIC, storyId: s, hldBaseRunId: 'run1', hldEffectiveHash: h, approvedAt: 'T' }, body: {} });
			return f;
		};
		const approvedOf = (m: M, e: string): any[] => m.am[e]!.filter(r => r.status === 'approved').sort((a, b) => (a.approvedAt < b.approvedAt ? -1 : 1));
		const effOf = (m: M, e: string): any => { let b: any = hld.body; for (const r of approvedOf(m, e)) b = b && spec(b, r.amendment, r.id); return b; };
		const key = (m: M): string => canon([Object.fromEntries(Object.entries(m.am).map(([e, l]) => [e, l.map(r => [r.amendment.type === 'storyBoundary.addStory' ? 2 : r.amendment.oldTarget === 'fast' ? 0 : 1, r.status])])), [EPIC, OTHER].map(e => approvedOf(m, e).map(r => r.id)), Object.values(m.lld).map(h => h), Object.keys(m.lld)]);
		let frontier: { m: M; path: Op[] }[] = [{ m: { am: { [EPIC]: [], [OTHER]: [] }, lld: {} }, path: [] }]; seen.add(key(frontier[0]!.m));
		for (let d = 0; d < depth; d++) {
			const next: typeof frontier = [];
			for (const { m, path } of frontier) for (const op of OPS) {
				const own = mine(item++); // every worker follows the model; each transition is executed by one of them
				const n: M = clone(m); let want = 'ok'; now = 1_750_000_000_000 + (d + 1) * 1000; const at = new RealDate(now).toISOString();
				const e = op[0] === 'lld' ? EPIC : op[2]!; const l = n.am[e]!; const target = op[0] === 'lld' ? undefined : l[(op[1] as number) - 1];
				if (op[0] === 'propose') { if (l.length >= 3) continue; l.push(rec(l.length + 1, KIND[op[1]], e)); }
				else if (op[0] === 'propose-again') { if (!target) continue; want = 'AmendmentIdConflictError'; }
				else if (op[0] === 'propose-approved') { if (l.length >= 3) continue; want = 'AmendmentImmutabilityError'; }
				else if (op[0] === 'lld') n.lld[op[1]] = hashOf('run1', approvedOf(m, EPIC).map(r => r.id));
				else if (op[0] === 'reject-blank') { want = 'Error'; }
				else if (!target) want = 'AmendmentNotFoundError';
				else if (target.status !== 'pending') want = 'AmendmentImmutabilityError';
				else if (op[0] === 'reject') Object.assign(target, { status: 'rejected', rejectedAt: at, rejectedReason: 'why' });
				else { const eff = effOf(m, e); if (spec(eff, target.amendment, target.id) === undefined) { if (op[0] === 'approve-raw') continue; want = 'AmendmentApplyError'; } else Object.assign(target, { status: 'approved', approvedAt: at, approvedBy: 'me' }); }
				const k = key(n); const fresh = !seen.has(k);
				if (fresh) { seen.add(k); next.push({ m: n, path: [...path, op] }); }
				if (!own) continue;
				if (fresh) chk.states++; chk.transitions++;
				const p = [...path, op].map(o => o.join(' ').replace(EPIC, 'E').replace(OTHER, 'O')); const before = filesOf(m);
				w.set(before); let r: any;
				const got = errName(() => {
					if (op[0] === 'propose') { const id = S.nextAmendmentId(R, e); if (id !== l[l.length - 1].id) throw Object.assign(new Error(), { name: `next id ${id}` }); S.proposeAmendment(R, rec(l.length, KIND[op[1]], e)); }
					else if (op[0] === 'propose-again') S.proposeAmendment(R, rec(op[1], KIND[2], e));
					else if (op[0] === 'propose-approved') S.proposeAmendment(R, { ...rec(l.length + 1, KIND[0], e), status: 'approved' });
					else if (op[0] === 'lld') w.set(filesOf(n));
					else { const id = `AMD-${e}-${op[1]}`; r = op[0] === 'approve' ? SV.approveAmendmentById(R, id, 'me') : op[0] === 'approve-raw' ? S.approveAmendment(R, id, 'me') : op[0] === 'reject' ? (op[1] === 2 ? SV.rejectAmendmentById(R, id, 'why') : S.rejectAmendment(R, id, 'why')) : S.rejectAmendment(R, id, '  '); }
				});
				if (got !== want) { bad(`life:${op[0]}:${want}`, `${p.join('; ')}: ${got}, expected ${want}`, p); w.snap(); continue; }
				const after = w.snap(), exp = filesOf(n);
				for (const f of new Set([...Object.keys(after), ...Object.keys(exp)])) if (f.endsWith('.json') && !f.endsWith('-x.json') ? after[f] === undefined || exp[f] === undefined || canon(JSON.parse(after[f]!)) !== canon(JSON.parse(exp[f]!)) : after[f] !== exp[f]) { bad(`life-files:${op[0]}`, `${p.join('; ')}: ${f} holds ${after[f]}, expected ${exp[f]}`, p); break; }
				if (r !== undefined && canon(r) !== canon(n.am[e]![(op[1] as number) - 1])) bad('life-return', `${p.join('; ')}: returned ${canon(r)}`, p);
				for (const x of [EPIC, OTHER]) {
					const baseA = G.readBaseHld(R, x); const ids = approvedOf(n, x).map(q => q.id); const h = hashOf(x === EPIC ? 'run1' : 'run2', ids);
					const list = S.listAmendments(R, x).map((q: any) => q.id), la = S.listApprovedAmendments(R, x).map((q: any) => q.id);
					if (canon(list) !== canon(n.am[x]!.map(q => q.id)) || canon(la) !== canon(ids)) bad('life-list', `${p.join('; ')}: lists ${list} approved ${la}, expected ${n.am[x]!.map(q => q.id)} approved ${ids}`, p);
					if (EF.getEffectiveHash(R, x, baseA) !== h || L.computeHldEffectiveHash(baseA.meta.runId, ids) !== h) bad('life-hash', `${p.join('; ')}: effective hash does not cover ${ids}`, p);
					const eff = G.requireApprovedHld(R, x); if (canon(eff.body) !== canon(effOf(n, x)) || canon(eff.meta) !== canon(baseA.meta) || canon(baseA.body) !== canon(hld.body)) bad('life-effective', `${p.join('; ')}: effective design differs: ${diff(eff.body, effOf(n, x))}`, p);
				}
				const sc: any[] = ST.scanLldStaleness(R, EPIC, G.readBaseHld(R, EPIC)); const cur = hashOf('run1', approvedOf(n, EPIC).map(q => q.id));
				if (canon(Object.fromEntries(sc.map(x => [x.storyId, x.stale]))) !== canon(Object.fromEntries(Object.entries(n.lld).map(([s, h]) => [s, h !== cur])))) bad('life-stale', `${p.join('; ')}: staleness ${canon(sc.map(x => [x.storyId, x.stale]))}`, p);
				for (const [s, h] of Object.entries(n.lld)) if ((errName(() => G.requireApprovedLld(R, EPIC, s)) === 'ok') !== (h === cur)) bad('life-gate', `${p.join('; ')}: LLD gate for ${s}`, p);
				if (chk.transitions % 3000 === 1) chk.sample(p, 3);
			}
			frontier = next;
		}
		if (mine(0)) chk.extra['lifecycle_model_states'] = seen.size;
		// more than nine amendments: order is by number, ids go on
		if (mine(item++)) { const f: Record<string, string> = {}; for (let i = 1; i <= 12; i++) f[`${AD}/AMD-${EPIC}-${i}.json`] = J(rec(i, KIND[2])); w.set(f); chk.states++; if (canon(S.listAmendments(R, EPIC).map((a: any) => a.id)) !== canon(Object.keys(f).map(x => x.slice(AD.length + 1, -5))) || S.nextAmendmentId(R, EPIC) !== `AMD-${EPIC}-13`) bad('many', `listing of twelve amendments: ${S.listAmendments(R, EPIC).map((a: any) => a.id)} next ${S.nextAmendmentId(R, EPIC)}`, {}); }
		(globalThis as any).Date = RealDate;
		function diff(a: any, b: any): string { for (const k of new Set([...Object.keys(a ?? {}), ...Object.keys(b ?? {})])) if (canon(a?.[k]) !== canon(b?.[k])) return `${k}: ${canon(a?.[k])}, expected ${canon(b?.[k])}`.slice(0, 500); return 'same'; }
	});
	chk.traces = chk.transitions;
	chk.finish();
});
