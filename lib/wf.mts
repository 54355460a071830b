// Workflow artifacts on disk: builders and a whole-tree snapshot.
import { createHash } from 'node:crypto';
import { mkdirSync, writeFileSync, rmSync, readdirSync, readFileSync, statSync } from 'node:fs';
import { join, dirname } from 'node:path';

export const EPIC = '0123456789abcdef', OTHER = '0123456789abcdee';
export const AD = '.insrc/artifacts';
export const effHash = (run: string, ids: readonly string[]): string => createHash('sha256').update([run, ...ids].join('|')).digest('hex');
export const story = (id: string): any => ({ id, title: `T ${id}`, userValue: 'u', userStory: 'As a user', acceptance: ['a'], acceptanceCriteria: [{ id: 'ac1', given: 'g', when: 'w', then: 't', operationalizes: [] }], dependsOn: id === 's2' ? ['s1'] : [], priority: 'must', citations: [] });
export const defBody = (ids: readonly string[] = ['s1', 's2']): any => ({ flavor: 'new-feature', problem: 'P', userValue: 'v', nonGoals: [], constraints: [], successMetrics: [], outOfScope: [], assumptions: [], glossary: [], openQuestions: [], stories: ids.map(story), personas: [], goals: [], risks: [] });
export const hldBody = (): any => ({
	frameworkSummary: 'F', architectureShape: 'A',
	sharedContracts: [
		{ id: 'sc1', name: 'One', ownedByStory: 's1', consumedByStories: ['s2'], purpose: 'p', interfaceSketch: 'interface One { a: string; m(x: number): void }', assumptions: [] },
		{ id: 'sc2', name: 'Two', ownedByStory: 's2', consumedByStories: [], purpose: 'p', interfaceSketch: 'interface Two { b?: string }', assumptions: [] },
	],
	storyBoundaries: [{ storyId: 's1', owns: ['sc1'], depends: [], internal: 'i1' }, { storyId: 's2', owns: ['sc2'], depends: ['sc1'], internal: 'i2' }],
	nonFunctional: { performance: 'fast', security: 'safe' },
	rolloutOverview: { phases: [{ name: 'p1', includesStories: ['s1'], rationale: 'r1', backwardCompat: 'b1', featureFlag: 'f1' }, { name: 'p2', includesStories: ['s2'], rationale: 'r2', backwardCompat: 'b2', featureFlag: null }, { name: 'p3', includesStories: [], rationale: 'r3', backwardCompat: 'b3', featureFlag: null }], strategy: 's' },
	alternativesConsidered: [], chosenAlternative: 'a1', openQuestions: [],
});
export class World {
	last = new Map<string, string>();
	constructor(readonly root: string) { rmSync(root, { recursive: true, force: true }); mkdirSync(root, { recursive: true }); }
	/** make the tree hold exactly these files (paths relative to the root) */
	set(files: Record<string, string>): void {
		for (const f of this.last.keys()) if (!(f in files)) rmSync(join(this.root, f), { force: true });
		for (const [f, t] of Object.entries(files)) { if (this.last.get(f) === t) continue; const p = join(this.root, f); mkdirSync(dirname(p), { recursive: true }); writeFileSync(p, t); }
		this.last = new Map(Object.entries(files));
	}
	/** everything on disk */
	snap(): Record<string, string> {
		const out: Record<string, string> = {};
		const walk = (d: string): void => { for (const n of readdirSync(join(this.root, d)).sort()) { const r = d ? `${d}/${n}` : n; if (statSync(join(this.root, r)).isDirectory()) walk(r); else out[r] = readFileSync(join(this.root, r), 'utf8'); } };
		walk('');
		// what the code under test changed has to be put back by the next set()
		for (const [f, t] of Object.entries(out)) if (this.last.get(f) !== t) this.last.set(f, '\0changed');
		for (const f of [...this.last.keys()]) if (!(f in out)) this.last.delete(f);
		return out;
	}
}
export const errName = (f: () => unknown): string => { try { f(); return 'ok'; } catch (e) { return (e as Error).name ?? 'Error'; } };
