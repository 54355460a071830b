// C14: every combination of artifact states against every gate, approval, rejection, batch sweep, admission and the chain report.
import { Check, main, THOROUGH, repo, SCRATCH, product, sequences, canon } from '../lib/mc.mts';
import { World, EPIC, OTHER, AD, effHash, defBody, hldBody, errName } from '../lib/wf.mts';
import { join } from 'node:path';
import { readFileSync, writeFileSync, mkdirSync } from 'node:fs';

type Dec = 'absent' | 'pending' | 'approved' | 'rejected' | 'empty' | 'both';
const T = '2026-01-01T00:00:00.000Z';
const dec = (d: Dec): any => d === 'approved' ? { approvedAt: T } : d === 'rejected' ? { rejectedAt: T, rejectReason: 'no' } : d === 'empty' ? { approvedAt: '', rejectedAt: '' } : d === 'both' ? { approvedAt: T, rejectedAt: T, rejectReason: 'no' } : {};
const J = (v: unknown): string => JSON.stringify(v, null, 2) + '\n';
const open = (d: Dec): boolean => d === 'approved'; // the latest decision is an approval

main(async () => {
	const chk = new Check('C14', 'model_checking');
	chk.assumptions.push('artifacts are well-formed JSON unless a state says otherwise; one process writes at a time');
	await chk.sharded(async mine => {
		const G = await repo('src/workflow/gates.ts'), CH = await repo('src/workflow/chain.ts'), AM = await repo('src/workflow/runners/build/admission.ts'), RR = await repo('src/workflow/review/resolve.ts'), ST = await repo('src/workflow/amendments/staleness.ts');
		const w = new World(join(SCRATCH, 'w', 'repo')); const R = w.root;
		const bad = (key: string, what: string, h: unknown): void => chk.violation(key, what, h);
		let item = 0;
		const AMD = (n: number, status: string, at?: string): [string, string] => [`${AD}/AMD-${EPIC}-${n}.json`, J({ id: `AMD-${EPIC}-${n}`, epicHash: EPIC, epicSlug: 'e', hldBaseRunId: 'run1', amendment: { type: 'nonFunctional.retarget', property: n === 1 ? 'performance' : 'security', oldTarget: n === 1 ? 'fast' : 'safe', newTarget: `new${n}`, rationale: 'r' }, rationale: 'r', citations: [], proposedBy: { workflow: 'design.story', runId: 'r', stepId: 's' }, proposedAt: T, status, ...(at ? { approvedAt: at, approvedBy: 'me' } : {}) })];
		// ---- 1. gates over all combinations of artifact states
		const D6: Dec[] = ['absent', 'pending', 'approved', 'rejected', 'empty', 'both'];
		const AMENDS: [string, [string, string][], string[]][] = [
			['none', [], []], ['pending', [AMD(1, 'pending')], []], ['rejected', [AMD(1, 'rejected')], []],
			['one', [AMD(1, 'approved', '2026-01-02T00:00:00.000Z')], [`AMD-${EPIC}-1`]],
			['two', [AMD(1, 'approved', '2026-01-03T00:00:00.000Z'), AMD(2, 'approved', '2026-01-02T00:00:00.000Z'), AMD(3, 'pending')], [`AMD-${EPIC}-2`, `AMD-${EPIC}-1`]],
		];
		const ANCH = ['fresh', 'rerun', 'before', 'wrong-order', 'no-hash'] as const, ACK = ['none', 'acked', 'empty', 'standalone'] as const;
		const PL = ['anchored', 'drifted', 'unset', 'empty'] as const;
		for (const [dDef, dHld, [aName, aFiles, aIds]] of product<any>(D6, D6.filter(d => d !== 'both'), AMENDS)) for (const [dLld, anch, ack] of product<any>(D6, ANCH, ACK)) {
			if (!mine(item++)) continue;
			const cur = effHash('run1', aIds);
			const stored = anch === 'fresh' ? cur : anch === 'rerun' ? effHash('run0', aIds) : anch === 'before' ? effHash('run1', aIds.slice(0, -1)) : anch === 'wrong-order' ? effHash('run1', [...aIds].reverse()) : undefined;
			const files: Record<string, string> = Object.fromEntries(aFiles);
			// another epic and another story with everything approved must never help
			files[`${AD}/DEF-${OTHER}.json`] = J({ meta: { workflow: 'define', epicHash: OTHER, epicSlug: 'o', approvedAt: T }, body: defBody() });
			files[`${AD}/LLD-${EPIC}-s10.json`] = J({ meta: { workflow: 'design.story', epicHash: EPIC, storyId: 's10', hldBaseRunId: 'run1', hldEffectiveHash: cur, approvedAt: T }, body: {} });
			if (dDef !== 'absent') files[`${AD}/DEF-${EPIC}.json`] = J({ meta: { workflow: 'define', epicHash: EPIC, epicSlug: 'e', runId: 'd', ...dec(dDef) }, body: defBody() });
			if (dHld !== 'absent') files[`${AD}/HLD-${EPIC}.json`] = J({ meta: { workflow: 'design.epic', epicHash: EPIC, epicSlug: 'e', runId: 'run1', ...dec(dHld) }, body: hldBody() });
			if (dLld !== 'absent') files[`${AD}/LLD-${EPIC}-s1.json`] = J({ meta: { workflow: 'design.story', epicHash: EPIC, epicSlug: 'e', storyId: 's1', hldBaseRunId: anch === 'rerun' ? 'run0' : 'run1', ...(stored !== undefined ? { hldEffectiveHash: stored } : {}), hldAmendmentsApplied: anch === 'fresh' ? aIds : aIds.slice(0, -1), ...(ack === 'acked' ? { staleAckedAt: T, staleAckedReason: 'fine' } : ack === 'empty' ? { staleAckedAt: '' } : ack === 'standalone' ? { standalone: true } : {}), ...dec(dLld) }, body: { x: 1 } });
			w.set(files); chk.states++;
			const ctx = { def: dDef, hld: dHld, amendments: aName, lld: dLld, anchor: anch, ack };
			const NA = 'ArtifactNotApprovedError', MI = 'ArtifactMissingError';
			const wantDef = dDef === 'absent' ? MI : open(dDef) ? 'ok' : NA, wantHld = dHld === 'absent' ? MI : open(dHld) ? 'ok' : NA;
			const stale = stored !== cur;
			const wantLld = dLld === 'absent' ? MI : !open(dLld) ? NA : ack === 'standalone' || ack === 'acked' ? 'ok' : dHld === 'absent' ? MI : stale ? NA : 'ok';
			const wantUp = wantLld !== 'ok' ? wantLld : ack === 'standalone' ? 'ok' : wantHld !== 'ok' ? wantHld : wantDef;
			const check = (name: string, got: string, want: string): void => { chk.transitions++; if (got !== want) bad(`gate:${name}:${want}:${got}`, `${name} with ${canon(ctx)}: ${got}, expected ${want}`, ctx); };
			check('requireApprovedEpic', errName(() => G.requireApprovedEpic(R, EPIC)), wantDef);
			check('requireApprovedHld', errName(() => G.requireApprovedHld(R, EPIC)), wantHld);
			check('requireApprovedLld', errName(() => G.requireApprovedLld(R, EPIC, 's1')), wantLld);
			check('readPlanUpstream', errName(() => G.readPlanUpstream(R, EPIC, 's1')), wantUp);
			check('requireApprovedPlan', errName(() => G.requireApprovedPlan(R, EPIC, 's1')), MI);
			check('requireApprovedLld(s2)', errName(() => G.requireApprovedLld(R, EPIC, 's2')), MI);
			if (wantHld === 'ok') { // the effective HLD, never the base
				const h = G.requireApprovedHld(R, EPIC).body.nonFunctional, hb = G.readBaseHld(R, EPIC).body.nonFunctional;
				if (h.performance !== (aIds.includes(`AMD-${EPIC}-1`) ? 'new1' : 'fast') || h.security !== (aIds.includes(`AMD-${EPIC}-2`) ? 'new2' : 'safe') || hb.performance !== 'fast') bad('effective', `effective HLD with ${canon(ctx)} has ${canon(h)}`, ctx);
			}
			if (wantUp === 'ok') { const u = G.readPlanUpstream(R, EPIC, 's1'); if (ack === 'standalone' ? u.hldSlice !== null : u.hldSlice?.boundary?.storyId !== 's1' || canon(u.storyDependsOn) !== '[]') bad('upstream', `plan upstream with ${canon(ctx)}: ${canon(u)}`.slice(0, 300), ctx); }
			const so = admit(() => AM.admitStandaloneBuild(R, EPIC, 's1', true));
			check('admitStandaloneBuild', so, wantLld === 'ok' ? 'admitted' : wantLld === MI ? 'plan-missing' : 'plan-unapproved');
			if (admit(() => AM.admitStandaloneBuild(R, EPIC, 's1', false)) !== 'admitted') bad('standalone-trivial', 'a standalone build without design was refused', ctx);
			// staleness scan and chain report
			if (dHld !== 'absent') {
				const sc = ST.scanLldStaleness(R, EPIC, G.readBaseHld(R, EPIC)) as any[];
				if (sc.length !== (dLld === 'absent' ? 1 : 2)) bad('scan', `staleness scan lists ${sc.map(s => s.storyId)} with ${canon(ctx)}`, ctx);
				const e = sc.find(s => s.storyId === 's1');
				if (dLld !== 'absent' && e.stale !== stale) bad(`scan-stale:${anch}`, `staleness scan says ${e.stale} with ${canon(ctx)}`, ctx);
				if (e?.stale && e.staleReason !== (anch === 'no-hash' ? 'malformed' : anch === 'rerun' ? 'hld-rerun' : anch === 'before' ? `amendment-${aIds[aIds.length - 1]}` : e.staleReason)) bad(`scan-reason:${anch}`, `staleness reason ${e.staleReason} with ${canon(ctx)}`, ctx);
			}
			const rep = CH.buildChainReport(R, EPIC); chk.transitions++;
			const s1stale = dHld !== 'absent' && dLld !== 'absent' && stale && ack !== 'acked' && ack !== 'standalone';
			const pend = aFiles.filter(f => f[1].includes('"status": "pending"')).length;
			const na: string[] = dDef === 'absent' ? ['run-define'] : dDef === 'rejected' || dDef === 'both' ? ['run-define'] : !open(dDef) ? ['approve-define'] : pend ? ['review-amendment'] : dHld === 'absent' ? ['run-hld'] : !open(dHld) ? ['approve-hld']
				: s1stale ? ['refresh-stale s1'] : dLld === 'absent' ? ['run-lld s1'] : dLld !== 'approved' && dLld !== 'both' ? ['approve-lld s1'] : ack === 'standalone' && stale ? ['run-lld s2', 'refresh-stale s1'] : ['run-lld s2'];
			const got = rep.nextAction.kind + (rep.nextAction.storyId ? ` ${rep.nextAction.storyId}` : '');
			if (!na.includes(got)) bad(`chain:${na[0]}:${got}`, `chain report with ${canon(ctx)} says "${got}", expected "${na.join('" or "')}"`, ctx);
			if (rep.define.exists !== (dDef !== 'absent') || rep.define.approved !== (dDef === 'approved' || dDef === 'both') || rep.define.rejected !== (dDef === 'rejected' || dDef === 'both') || rep.hld.exists !== (dHld !== 'absent') || rep.hld.approved !== (dHld === 'approved') || rep.amendments.pending !== pend || rep.amendments.approved !== aIds.length) bad('chain-facts', `chain report with ${canon(ctx)} states ${canon({ d: rep.define, h: rep.hld, a: rep.amendments })}`, ctx);
			if (chk.states % 2000 === 1) chk.sample({ ...ctx, next: got, gates: { wantDef, wantHld, wantLld, wantUp } });
			if (chk.states % 97 === 0) { const after = w.snap(); if (canon(after) !== canon(files)) bad('gates-write', `a gate or report changed the artifacts: ${canon(ctx)}`, ctx); }
		}
		function admit(f: () => any): string { try { const r = f(); return r.admitted ? 'admitted' : r.refusal.reason; } catch (e) { return `throws ${(e as Error).name}`; } }
		// ---- 2. plan gate and build admission
		for (const [dPlan, rec, dLld, dHld] of product<any>(D6, PL, D6, ['absent', 'approved'])) {
			if (!mine(item++)) continue;
			const files: Record<string, string> = {};
			if (dHld !== 'absent') files[`${AD}/HLD-${EPIC}.json`] = J({ meta: { epicHash: EPIC, runId: 'run1', approvedAt: T }, body: hldBody() });
			if (dLld !== 'absent') files[`${AD}/LLD-${EPIC}-s1.json`] = J({ meta: { epicHash: EPIC, storyId: 's1', hldBaseRunId: 'run1', hldEffectiveHash: 'H1', ...dec(dLld) }, body: {} });
			const plan = { meta: { workflow: 'plan', epicHash: EPIC, storyId: 's1', ...(rec === 'unset' ? {} : { lldEffectiveHash: rec === 'anchored' ? 'H1' : rec === 'drifted' ? 'H0' : '' }), ...dec(dPlan) }, body: { tasks: [] } };
			if (dPlan !== 'absent') files[`${AD}/PLAN-${EPIC}-s1.json`] = J(plan);
			files[`${AD}/PLAN-${EPIC}-s10.json`] = J({ ...plan, meta: { ...plan.meta, approvedAt: T, lldEffectiveHash: 'H1', storyId: 's10' } });
			w.set(files); chk.states++; const ctx = { plan: dPlan, recorded: rec, lld: dLld, hld: dHld };
			const want = dPlan === 'absent' ? 'ArtifactMissingError' : open(dPlan) ? 'ok' : 'ArtifactNotApprovedError';
			for (const f of ['requireApprovedPlan', 'readBuildUpstream']) if (errName(() => G[f](R, EPIC, 's1')) !== want) bad(`gate:${f}`, `${f} with ${canon(ctx)}: ${errName(() => G[f](R, EPIC, 's1'))}, expected ${want}`, ctx);
			const wa = dPlan === 'absent' ? 'plan-missing' : !open(dPlan) ? 'plan-unapproved' : dLld === 'absent' ? 'throws ArtifactMissingError' : rec === 'anchored' ? 'admitted' : 'plan-stale';
			const ga = admit(() => AM.admitBuild(R, EPIC, 's1')); chk.transitions += 3;
			if (ga !== wa) bad(`admit:${wa}:${ga}`, `admitBuild with ${canon(ctx)}: ${ga}, expected ${wa}`, ctx);
			if (ga === 'admitted') { const p = AM.admitBuild(R, EPIC, 's1').plan; if (p.planArtifactId !== `PLAN-${EPIC}-s1` || p.storyId !== 's1') bad('admit-plan', `admitted plan is ${canon(p)}`, ctx); }
			const after = w.snap(); if (canon(after) !== canon(files)) bad('admit-writes', `admission changed artifacts: ${canon(ctx)}`, ctx);
		}
		// ---- 3. specs
		for (const [d, body] of product<any>(D6, ['ok', 'bad', 'none'])) {
			if (!mine(item++)) continue;
			const H = 'feedfacefeedface'; const good = { problem: 'p', goals: [], nonGoals: [], approach: 'a', openQuestions: [] };
			const spec = await specBody(good);
			const files: Record<string, string> = d === 'absent' ? {} : { [`${AD}/SPEC-${H}.json`]: J({ meta: { workflow: 'brainstorm', specHash: H, epicSlug: 'e', ...dec(d) }, ...(body === 'ok' ? { body: spec } : body === 'bad' ? { body: { z: 1 } } : {}) }) };
			w.set(files); chk.states++; const ctx = { spec: d, body };
			const want = d === 'absent' ? 'SpecArtifactNotFoundError' : body !== 'ok' ? 'Error' : d === 'approved' || d === 'both' ? 'ok' : 'SpecNotApprovedError';
			const got = errName(() => G.requireApprovedSpec(R, H)); chk.transitions += 2;
			if (got !== want && !(d === 'both' && got === 'SpecNotApprovedError')) bad(`spec:${want}:${got}`, `requireApprovedSpec with ${canon(ctx)}: ${got}, expected ${want}`, ctx);
			const rs = errName(() => { const r = G.resolveApprovedSpec(R, H); if (r.spec === undefined) throw Object.assign(new Error(), { name: r.code }); });
			const wr = got === 'SpecArtifactNotFoundError' ? 'not-found' : got === 'SpecNotApprovedError' ? 'not-approved' : got;
			if (rs !== wr) bad(`spec-resolve:${wr}:${rs}`, `resolveApprovedSpec with ${canon(ctx)}: ${rs}, expected ${wr}`, ctx);
		}
		async function specBody(_g: any): Promise<any> { const A = await repo('src/workflow/artifacts/spec.ts'); for (const cand of SPECS) if (A.isSpecBody(cand)) return cand; throw new Error('no candidate spec body is accepted; adapt the check'); }
		// ---- 4. approval and rejection of one artifact: decision state x findings x resolutions x override x code review x enforcement
		const SEV = ['HIGH', 'MED', 'LOW'] as const, RES = [undefined, 'resolved', 'overridden', 'deferred'] as const;
		const findings: any[] = [[]]; for (const a of SEV) for (const ra of RES) { findings.push([[a, ra]]); for (const b of SEV) for (const rb of RES) findings.push([[a, ra], [b, rb]]); }
		const KINDS: [string, string | undefined, string, string][] = [['DEF', undefined, 'docs/defines', 'define'], ['HLD', undefined, 'docs/designs', 'design.epic'], ['LLD', 's1', 'docs/designs', 'design.story'], ['PLAN', 's1', 'docs/plans', 'plan'], ['BUILD', 's1', 'docs/builds', 'build'], ['SPEC', undefined, 'docs/specs', 'brainstorm']];
		const CR = ['absent', 'pass', 'warn', 'block', 'weird', 'malformed', 'nobody', 'other'] as const;
		const crFile = (c: string): Record<string, string> => c === 'absent' ? {} : c === 'other' ? { [`${AD}/CR-${EPIC}-s10.json`]: J({ body: { verdict: 'block', counts: { high: 1 } } }) } : { [`${AD}/CR-${EPIC}-s1.json`]: c === 'malformed' ? '{"body":' : c === 'nobody' ? '{}' : J({ body: { verdict: c === 'weird' ? 'BLOCK' : c, counts: { high: 1, med: 0, low: 2 } } }) };
		const reviewOf = (fs: any[]): any => fs.length === 0 ? {} : { review: { verdict: 'block', findings: fs.map(([s], i) => ({ claimId: `f${i}`, severity: s, fixability: 'manual', summary: 's' })) }, reviewResolutions: Object.fromEntries(fs.flatMap(([, r], i) => r ? [[`f${i}`, { findingId: `f${i}`, status: r, resolvedAt: T }]] : [])) };
		for (const [[K, sid, dir, wf], d, fs] of product<any>(KINDS, ['pending', 'approved', 'rejected'], findings)) for (const override of [undefined, '', 'because']) {
			const story = sid !== undefined;
			for (const [cr, enforce, form] of product<any>(story ? CR : ['absent', 'block'], story ? [undefined, true, false] : [undefined, true], fs.length < 2 ? ['json', 'md', 'bare', 'html'] : ['json'])) {
				if (fs.length === 2 && !THOROUGH && (cr !== 'absent' && cr !== 'block' || enforce === false)) continue;
				if (!mine(item++)) continue;
				const id = K === 'SPEC' ? `SPEC-${EPIC}` : `${K}-${EPIC}${sid ? `-${sid}` : ''}`; const jp = `${AD}/${id}.json`;
				const meta = { workflow: wf, ...(K === 'SPEC' ? { specHash: EPIC } : { epicHash: EPIC }), epicSlug: 'slug', ...(sid ? { storyId: sid } : {}), runId: 'r1', ...reviewOf(fs), ...dec(d) };
				const files: Record<string, string> = { [jp]: J({ meta, body: { keep: [1, 'two'] }, citations: [{ id: 'c1' }] }), ...crFile(cr), [`${AD}/DEF-${OTHER}.json`]: J({ meta: { epicHash: OTHER }, body: {} }) };
				const target = form === 'json' ? jp : form === 'bare' ? `${dir}/${id}.md` : `${dir}/${K}-slug.${form}`;
				if (form !== 'json') files[target] = form === 'bare' ? '# no marker\n' : `<!-- insrc:artifact ${id} -->\n# x\n`;
				w.set(files); chk.states++; chk.transitions++;
				const ctx = { kind: K, state: d, findings: fs, override, codeReview: cr, enforce, form };
				const blocking = fs.some(([s, r]: any) => s !== 'LOW' && r === undefined), ov = override !== undefined && override !== '';
				const crBlock = story && cr === 'block' && enforce === true && !ov, noReview = story && K === 'BUILD' && enforce === true && ['absent', 'weird', 'malformed', 'nobody', 'other'].includes(cr) && override === undefined;
				const wantOk = !crBlock && !noReview && (!blocking || ov);
				let r: any; try { r = G.approveWorkflowTarget({ repoPath: R, artifactPath: join(R, target), ...(override !== undefined ? { overrideReview: override } : {}) }, enforce === undefined ? undefined : { enforce }); } catch (e) { bad('approve-throws', `approveWorkflowTarget ${canon(ctx)} threw ${(e as Error).message}`, ctx); continue; }
				const after = w.snap(); const a = JSON.parse(after[jp]!);
				if ((r.approved.length === 1) !== wantOk || r.approved.length + r.skipped.length !== 1 || (r.skipped.length && !r.skipped[0].reason)) bad(`approve:${wantOk}:${K}`, `approving ${canon(ctx)} reports ${canon({ approved: r.approved.length, skipped: r.skipped })}, expected ${wantOk ? 'approval' : 'a refusal with a reason'}`, ctx);
				const crs = !story ? [] : [cr === 'pass' ? 'pass' : cr === 'warn' ? 'warn' : cr === 'block' ? (enforce !== true ? 'warn' : ov ? 'overridden' : 'blocked') : 'no-review'];
				if (canon(r.codeReview.map((c: any) => c.status)) !== canon(crs)) bad(`approve-cr:${crs[0]}`, `approving ${canon(ctx)} presents code review ${canon(r.codeReview)}, expected ${crs}`, ctx);
				const expectMeta: any = { ...meta }; if (wantOk) { delete expectMeta.rejectedAt; delete expectMeta.rejectReason; expectMeta.approvedAt = a.meta.approvedAt; if (blocking) expectMeta.reviewOverride = { reason: override, at: a.meta.reviewOverride?.at }; if (!(Date.parse(a.meta.approvedAt) > 0) || blocking && !(Date.parse(a.meta.reviewOverride?.at) > 0)) bad('approve-stamp', `approving ${canon(ctx)} left ${canon(a.meta)}`, ctx); }
				if (wantOk ? canon(a) !== canon({ meta: expectMeta, body: { keep: [1, 'two'] }, citations: [{ id: 'c1' }] }) : after[jp] !== files[jp]) bad(`approve-file:${wantOk}`, `approving ${canon(ctx)} left the artifact as ${canon(a)}`, ctx);
				if (canon({ ...after, [jp]: 0 }) !== canon({ ...files, [jp]: 0 })) bad('approve-others', `approving ${canon(ctx)} touched other files`, ctx);
				// rejection (blank reasons refused), then the decision gates follow the latest decision; approving again restores it
				if (fs.length < 2 && cr === 'absent' && form === 'json' && override === undefined) for (const reason of ['nope', '', '  ']) {
					w.set(files); const e = errName(() => G.rejectArtifactByJsonPath(join(R, jp), reason)); chk.transitions++;
					const b = JSON.parse(w.snap()[jp]!);
					if (e !== (reason.trim() ? 'ok' : 'Error')) bad('reject', `reject with reason '${reason}': ${e}`, ctx);
					if (reason.trim() ? b.meta.approvedAt !== undefined || b.meta.rejectReason !== reason || !(Date.parse(b.meta.rejectedAt) > 0) || canon(b.body) !== canon({ keep: [1, 'two'] }) : canon(b.meta) !== canon(meta)) bad('reject-file', `reject '${reason}' of ${canon(ctx)} left ${canon(b)}`, ctx);
					if (reason.trim() && K === 'DEF') { if (errName(() => G.requireApprovedEpic(R, EPIC)) !== 'ArtifactNotApprovedError') bad('reject-gate', 'a rejected epic passes the gate', ctx); if (!blocking) { G.approveArtifactByJsonPath(join(R, jp)); if (errName(() => G.requireApprovedEpic(R, EPIC)) !== 'ok') bad('re-approve', 're-approval after rejection is not honoured', ctx); w.snap(); } }
				}
			}
		}
		// ---- 5. resolving findings: all sequences of actions; the verdict and the artifact follow exactly
		const FS = [['a', 'HIGH'], ['b', 'MED'], ['c', 'LOW']] as const, ACTS = ['accept', 'override', 'defer', 'apply'] as const;
		const resOps = [...FS.map(f => f[0]), 'zz'].flatMap(f => ACTS.map(a => [f, a] as const));
		const SECT = '\n<!-- insrc:review -->\n\n## Review\n\n  - edit: `alpha` → `ALPHA!`\n  - edit: `notthere` → `x`\n';
		for (let n = 1; n <= (THOROUGH ? 4 : 3); n++) for (const seq of sequences(resOps.length, n)) {
			if (!mine(item++)) continue;
			const jp = `${AD}/DEF-${EPIC}.json`, mp = 'docs/defines/DEF-e.md'; const body0 = { problem: 'alpha beta', n: 1 };
			const fnd = FS.map(([c, s]) => ({ claimId: c, severity: s, fixability: 'auto', summary: 's', ref: c, ...(c === 'a' ? { proposedFix: { rationale: 'r', artifactEdits: [{ find: 'alpha', replace: 'ALPHA' }] } } : c === 'b' ? { proposedFix: { rationale: 'r', artifactEdits: [{ find: 'notthere', replace: 'x' }] } } : {}) }));
			w.set({ [jp]: J({ meta: { workflow: 'define', epicHash: EPIC, runId: 'x', review: { verdict: 'block', findings: fnd } }, body: body0 }), [mp]: `<!-- insrc:artifact DEF-${EPIC} -->\nalpha beta\n${SECT}` });
			const res: Record<string, string> = {}; let applied = false; chk.states++;
			for (const i of seq) {
				const [f, act] = resOps[i]!; chk.transitions++; const ctx = { sequence: seq.map(x => resOps[x]!.join(':')) };
				const before = { j: readFileSync(join(R, jp), 'utf8'), m: readFileSync(join(R, mp), 'utf8') };
				const okApply = f === 'a' && !applied; const ok = f !== 'zz' && (act !== 'apply' || okApply);
				let out: any; const e = errName(() => { out = RR.resolveReviewFinding(join(R, mp), join(R, jp), f, act); });
				if ((e === 'ok') !== ok) bad(`resolve:${act}:${ok}`, `${canon(ctx)}: ${f}:${act} gave ${e}`, ctx);
				const a = JSON.parse(readFileSync(join(R, jp), 'utf8')), m = readFileSync(join(R, mp), 'utf8');
				if (e !== 'ok') { if (readFileSync(join(R, jp), 'utf8') !== before.j || m !== before.m) bad('resolve-fail-writes', `${canon(ctx)}: a refused ${f}:${act} changed the artifact`, ctx); continue; }
				if (act === 'apply') applied = true;
				res[f] = act === 'override' ? 'overridden' : act === 'defer' ? 'deferred' : 'resolved';
				const left = FS.filter(([c, s]) => s !== 'LOW' && res[c] === undefined).length;
				if (out.remainingBlocking !== left || out.effectiveVerdict !== (left ? 'block' : 'pass') || RR.effectiveReviewVerdict(a.meta.review, a.meta.reviewResolutions) !== (left ? 'block' : 'pass')) bad('resolve-verdict', `${canon(ctx)}: verdict ${canon(out)}, ${left} blocking findings are open`, ctx);
				if (canon(RR.listPendingReviewFindings(a.meta.review, a.meta.reviewResolutions).map((x: any) => x.claimId)) !== canon(FS.filter(([c, s]) => s !== 'LOW' && res[c] === undefined).map(x => x[0]))) bad('resolve-pending', `${canon(ctx)}: pending findings wrong`, ctx);
				if (canon(Object.fromEntries(Object.entries(a.meta.reviewResolutions).map(([k, v]: any) => [k, v.status]))) !== canon(res)) bad('resolve-record', `${canon(ctx)}: recorded ${canon(a.meta.reviewResolutions)}`, ctx);
				if (a.body.problem !== (applied ? 'ALPHA beta' : 'alpha beta') || m.slice(0, m.indexOf(SECT)).trimEnd() !== `<!-- insrc:artifact DEF-${EPIC} -->\n${applied ? 'ALPHA' : 'alpha'} beta` || !m.endsWith(SECT) || canon(a.meta.review.findings) !== canon(fnd)) bad('resolve-body', `${canon(ctx)}: body ${canon(a.body)} md ${m}`, ctx);
				// approval agrees
				const jcopy = readFileSync(join(R, jp), 'utf8'); const ap = errName(() => G.approveArtifactByJsonPath(join(R, jp))); writeFileSync(join(R, jp), jcopy);
				if (ap !== (left ? 'ReviewBlockedError' : 'ok')) bad('resolve-approve', `${canon(ctx)}: approval ${ap} with ${left} open`, ctx);
			}
			w.last.set(jp, '\0'); w.last.set(mp, '\0');
		}
		// ---- 6. batch approval of an epic
		const BS = ['absent', 'pending', 'approved', 'rejected', 'blocked', 'malformed', 'cleared'] as const;
		for (const st of product<any>(BS, BS, BS, BS, BS)) for (const [override, enforce, cr] of product<any>([undefined, 'why'], [undefined, true], ['absent', 'block', 'pass'])) {
			if (!THOROUGH && st.filter((x: string) => x === 'malformed' || x === 'cleared').length > 1) continue;
			if (!mine(item++)) continue;
			const files: Record<string, string> = { ...crFile(cr), [`${AD}/DEF-${OTHER}.json`]: J({ meta: { epicHash: OTHER }, body: {} }), [`${AD}/LLD-${OTHER}-s1.json`]: J({ meta: { epicHash: OTHER, storyId: 's1' }, body: {} }), [`${AD}/AMD-${EPIC}-1.json`]: AMD(1, 'pending')[1], [`${AD}/SPEC-${EPIC}.json`]: J({ meta: {}, body: {} }) };
			const want: Record<string, 'approved' | 'skipped'> = {};
			KINDS.slice(0, 5).forEach(([K, sid], i) => {
				const s = st[i]; if (s === 'absent') return; const p = `${AD}/${K}-${EPIC}${sid ? `-${sid}` : ''}.json`;
				files[p] = s === 'malformed' ? '{"meta":' : J({ meta: { epicHash: EPIC, ...(sid ? { storyId: sid } : {}), ...dec(s === 'approved' || s === 'rejected' ? s : 'pending'), ...(s === 'blocked' ? reviewOf([['HIGH', undefined]]) : s === 'cleared' ? reviewOf([['HIGH', 'deferred'], ['LOW', undefined]]) : {}) }, body: { K } });
				if (s === 'malformed' || s === 'approved') return;
				const crB = sid && cr === 'block' && enforce && !override, nr = K === 'BUILD' && cr === 'absent' && enforce && !override;
				want[p] = crB || nr || (s === 'blocked' && !override) ? 'skipped' : 'approved';
			});
			w.set(files); chk.states++; chk.transitions++;
			const ctx = { states: st, override, enforce, codeReview: cr };
			let r: any; const e = errName(() => { r = G.approveWorkflowTarget({ repoPath: R, epicHash: EPIC, ...(override ? { overrideReview: override } : {}) }, enforce === undefined ? undefined : { enforce }); });
			const none = Object.keys(want).length === 0;
			if (e !== (none ? 'NoPendingArtifactsError' : 'ok')) { bad(`batch:${e}`, `batch approval ${canon(ctx)}: ${e}`, ctx); continue; }
			const got: Record<string, string> = {}; if (!none) { for (const a of r.approved) got[a.path.slice(R.length + 1)] = 'approved'; for (const a of r.skipped) got[a.path.slice(R.length + 1)] = a.reason ? 'skipped' : 'skipped silently'; }
			if (canon(got) !== canon(want)) bad('batch-result', `batch approval ${canon(ctx)}: reported ${canon(got)}, expected ${canon(want)}`, ctx);
			const after = w.snap();
			for (const [p, t] of Object.entries(files)) { const now = after[p]; if (want[p] === 'approved') { const m = JSON.parse(now!).meta; if (!m.approvedAt || m.rejectedAt) bad('batch-file', `${p} is reported approved but holds ${canon(m)}`, ctx); } else if (now !== t) bad('batch-other', `batch approval changed ${p}: ${canon(ctx)}`, ctx); }
			if (Object.keys(after).length !== Object.keys(files).length) bad('batch-extra', `batch approval left extra files ${Object.keys(after)}`, ctx);
		}
		// ---- 7. extending an epic, acknowledging staleness, unusual repository locations
		if (mine(item++)) {
			for (const loc of ['plain', 'docs/designs/in', 'a/docs/defines/b', 'x/docs/plans/y', 'docs/stub/z']) {
				const w2 = new World(join(SCRATCH, 'loc', loc));
				for (const [K, sid, dir] of KINDS) { const id = `${K}-${EPIC}${sid ? `-${sid}` : ''}`; w2.set({ [`${AD}/${id}.json`]: J({ meta: {}, body: {} }), [`${dir}/${K}-slug.md`]: `<!-- insrc:artifact ${id} -->\n` }); chk.states++; const p = errName(() => { const j = G.jsonPathForMd(join(w2.root, dir, `${K}-slug.md`)); if (j !== join(w2.root, AD, `${id}.json`)) throw Object.assign(new Error(), { name: j }); }); if (p !== 'ok') bad(`location:${loc}`, `artifact ${K} of a repository at <dir>/${loc} resolves to ${p}`, { loc, K }); }
			}
			for (const d of ['approved', 'pending', 'rejected'] as Dec[]) for (const ids of [['s1'], ['s1', 's2'], ['s1', 's10'], ['s3', 'x'], []]) {
				w.set({ [`${AD}/DEF-${EPIC}.json`]: J({ meta: { workflow: 'define', epicHash: EPIC, epicSlug: 'e', createdAt: T, runId: 'r', attribution: [], ...dec(d) }, body: defBody(ids), citations: [] }) });
				const art = G.readDefineArtifact(R, EPIC); const next = G.nextStoryId(art); chk.states++;
				const wantN = `s${Math.max(0, ...ids.map(i => Number(/^s(\d+)$/.exec(i)?.[1] ?? 0))) + 1}`; if (next !== wantN) bad('next-story', `next story id after ${ids} is ${next}`, {});
				if (ids.length) { if (errName(() => G.appendStoryToDefine(R, EPIC, { ...defBody(['s1']).stories[0], id: ids[0] })) !== 'Error') bad('append-dup', 'a duplicate story id was accepted', {}); }
				if (errName(() => G.appendStoryToDefine(R, EPIC, { ...defBody(['s1']).stories[0], id: next })) === 'ok') { const a = G.readDefineArtifact(R, EPIC); if (canon(a.body.stories.map((s: any) => s.id)) !== canon([...ids, next]) || (a.meta.approvedAt !== undefined) !== (d === 'approved') || (a.meta.rejectedAt !== undefined) !== (d === 'rejected')) bad('append', `appending a story to a ${d} epic left ${canon(a.meta)} ${a.body.stories.map((s: any) => s.id)}`, {}); const cat = G.epicCatalog(R); if (cat.length !== 1 || cat[0].approved !== (d === 'approved') || canon(cat[0].stories.map((s: any) => s.id)) !== canon([...ids, next])) bad('catalog', `catalog is ${canon(cat)}`, {}); } else bad('append-refused', `appending ${next} to ${ids} was refused`, {});
				w.snap();
			}
			for (const reason of ['ok', '', ' ']) { w.set({ [`${AD}/LLD-${EPIC}-s1.json`]: J({ meta: { a: 1, approvedAt: T }, body: { b: 2 } }) }); const e = errName(() => G.ackStaleArtifact(join(R, `${AD}/LLD-${EPIC}-s1.json`), reason)); const a = JSON.parse(w.snap()[`${AD}/LLD-${EPIC}-s1.json`]!); if ((e === 'ok') !== (reason.trim() !== '') || (e === 'ok' ? a.meta.staleAckedReason !== reason || !a.meta.staleAckedAt || a.meta.approvedAt !== T || canon(a.body) !== '{"b":2}' : canon(a.meta) !== canon({ a: 1, approvedAt: T }))) bad('ack', `ack-stale '${reason}': ${e} ${canon(a)}`, {}); }
			mkdirSync(join(R, 'q'), { recursive: true });
			for (const f of ['approveArtifactByJsonPath', 'rejectArtifactByJsonPath', 'ackStaleArtifact']) if (errName(() => G[f](join(R, AD, 'none.json'), f[0] === 'a' && f[1] === 'p' ? undefined : 'r')) !== 'ArtifactMissingError') bad('missing', `${f} of a missing artifact`, {});
		}
	});
	chk.traces = chk.states;
	chk.finish();
});
const SPECS: any[] = ['design', 'requirements', 'implementation', 'testing', 'general'].map(category => ({ category, intent: 'i', scopeBoundary: 's', nonGoals: [], openItems: [], decisions: [] }));
