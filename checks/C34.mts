// C34: the git tools do exactly the git operation asked, refuse what they guard, and report what git then holds.
import { Check, main, THOROUGH, canon, repo, SCRATCH } from '../lib/mc.mts';
import { execFileSync, spawnSync } from 'node:child_process';
import { mkdirSync, writeFileSync, readFileSync, existsSync, rmSync, readdirSync, lstatSync, readlinkSync, chmodSync } from 'node:fs';
import { join } from 'node:path';

// A fixed clock and identity make equal histories equal commits; an editor that fails shows a tool that waits for one.
for (const k of Object.keys(process.env)) if (k.startsWith('GIT_')) delete process.env[k];
mkdirSync(SCRATCH, { recursive: true });
writeFileSync(join(SCRATCH, 'gitconfig'), '[user]\n\tname = An Author\n\temail = an@author.test\n[init]\n\tdefaultBranch = main\n[advice]\n\tdetachedHead = false\n[gc]\n\tauto = 0\n[maintenance]\n\tauto = false\n');
Object.assign(process.env, { GIT_CONFIG_GLOBAL: join(SCRATCH, 'gitconfig'), GIT_CONFIG_NOSYSTEM: '1', GIT_AUTHOR_DATE: '2026-01-02T03:04:05Z', GIT_COMMITTER_DATE: '2026-01-02T03:04:05Z', GIT_EDITOR: 'false', GIT_TERMINAL_PROMPT: '0', LC_ALL: 'C', HOME: SCRATCH });
type G = { ok: boolean; out: string; err: string };
const git = (cwd: string, ...a: string[]): G => { const r = spawnSync('git', a, { cwd, encoding: 'utf8', env: { ...process.env, GIT_EDITOR: 'true' }, maxBuffer: 1 << 26 }); return { ok: r.status === 0, out: r.stdout, err: r.stderr }; };
const must = (cwd: string, ...a: string[]): string => { const r = git(cwd, ...a); if (!r.ok) throw new Error(`git ${a.join(' ')}: ${r.err}`); return r.out; };
const z = (s: string): string[] => s.split('\0').filter(Boolean);
const put = (d: string, f: string, s: string | Buffer): void => { mkdirSync(join(d, f, '..'), { recursive: true }); writeFileSync(join(d, f), s); };
const commit = (d: string, m: string, date?: string): void => { must(d, 'add', '-A'); const r = spawnSync('git', ['commit', '-qm', m], { cwd: d, encoding: 'utf8', env: { ...process.env, ...(date ? { GIT_AUTHOR_DATE: date, GIT_COMMITTER_DATE: date } : {}) } }); if (r.status !== 0) throw new Error(r.stderr); };
const U = 'ü n.txt';

function build(root: string): void {
	const o = join(root, 'origin.git'), w = join(root, 'work');
	mkdirSync(w, { recursive: true }); must(root, 'init', '-q', '--bare', '--template=', 'origin.git'); must(w, 'init', '-q', '--template=');
	put(w, 'a.txt', 'a1\na2\na3\na4\na5\na6\na7\na8\n'); put(w, 'b.txt', 'b1\nb2\nb3\n'); put(w, 'dir/c.txt', 'c1\n'); put(w, U, 'u1\nu2\n'); put(w, 'bin.dat', Buffer.from([0, 1, 2, 255])); commit(w, 'one: first | pipe', '2026-01-01T00:00:00Z');
	must(w, 'tag', 'v1');
	put(w, 'a.txt', 'a1\nA2\na3\na4\na5\na6\na7\na8\n'); put(w, 'bin.dat', Buffer.from([0, 9, 9])); commit(w, 'two\n\nbody of two\nsecond line', '2026-01-01T01:00:00Z');
	must(w, 'tag', '-a', '-m', 'annotation of v2', 'v2');
	must(w, 'remote', 'add', 'origin', '../origin.git'); must(w, 'push', '-qu', 'origin', 'main');
	must(w, 'switch', '-qc', 'feature'); put(w, 'a.txt', 'a1\nA2\na3\na4\na5\na6\na7\nA8 by feature\n'); put(w, 'feat.txt', 'f\n'); commit(w, 'feature work', '2026-01-01T02:00:00Z');
	must(w, 'switch', '-q', 'main'); must(w, 'switch', '-qc', 'clash'); put(w, 'b.txt', 'b1\nclash\nb3\n'); put(w, U, 'u1\nclash\n'); commit(w, 'clashing', '2026-01-01T03:00:00Z');
	must(w, 'switch', '-q', 'main'); put(w, 'b.txt', 'b1\nmain\nb3\n'); put(w, U, 'u1\nmain\n'); must(w, 'mv', 'dir/c.txt', 'dir/moved c.txt'); put(w, 'new.txt', 'n\n'); commit(w, 'three', '2026-01-01T04:00:00Z');
	// the remote has a branch of its own and, on feature, a commit nobody fetched
	must(w, 'push', '-q', 'origin', 'v1^{commit}:refs/heads/remote-only', 'feature'); must(w, 'fetch', '-q'); must(w, 'branch', '-q', '-u', 'origin/feature', 'feature');
	const c = join(root, 'c'); must(root, 'clone', '-q', '--template=', 'origin.git', 'c'); must(c, 'switch', '-q', 'feature'); put(c, 'remote.txt', 'r\n'); commit(c, 'from elsewhere', '2026-01-01T05:00:00Z'); must(c, 'push', '-q', 'origin', 'feature'); must(c, 'push', '-q', 'origin', 'HEAD:refs/heads/unseen'); rmSync(c, { recursive: true, force: true });
}
const STATES: Record<string, (w: string) => void> = {
	clean: () => {},
	behind: w => { must(w, 'reset', '-q', '--hard', 'v1'); },
	feature: w => { must(w, 'switch', '-q', 'feature'); },
	diverged: w => { must(w, 'switch', '-q', 'feature'); put(w, 'own.txt', 'o\n'); commit(w, 'own work'); must(w, 'branch', 'release/1', 'main'); must(w, 'push', '-q', 'origin', 'release/1', 'main:mainline'); must(w, 'reset', '-q', '--hard', 'HEAD'); must(w, 'branch', '-f', 'release/1', 'clash'); must(w, 'branch', 'mainline', 'clash'); },
	dirty: w => { put(w, 'a.txt', 'a1\nstaged\na3\na4\na5\na6\na7\na8\n'); must(w, 'add', 'a.txt'); must(w, 'mv', 'new.txt', 'ren amed.txt'); put(w, 'b.txt', 'b1\nunstaged\nb3\nb4\n'); rmSync(join(w, 'dir/moved c.txt')); put(w, '-x.txt', 'x\n'); put(w, 'ü.txt', 'u\n'); put(w, 'sp ace/f.txt', 's\n'); put(w, 'staged "q".txt', 'q\n'); must(w, 'add', 'staged "q".txt'); put(w, 'both.txt', '1\n'); must(w, 'add', 'both.txt'); put(w, 'both.txt', '2\n'); },
	untidy: w => { put(w, 'a.txt', 'a1\nA2\na3\na4 untidy\na5\na6\na7\na8\n'); put(w, 'feat.txt', 'in the way\n'); },
	detached: w => { must(w, 'switch', '-q', '--detach', 'v1'); put(w, 'd.txt', 'd\n'); must(w, 'add', 'd.txt'); },
	unborn: w => { rmSync(join(w, '.git'), { recursive: true, force: true }); must(w, 'init', '-q', '--template='); must(w, 'add', 'a.txt'); },
	hooked: w => { put(w, '.git/hooks/pre-commit', '#!/bin/sh\nexit 1\n'); chmodSync(join(w, '.git/hooks/pre-commit'), 0o755); put(w, 'h.txt', 'h\n'); must(w, 'add', 'h.txt'); },
	merging: w => { git(w, 'merge', '-q', 'clash'); },
	merged: w => { git(w, 'merge', '-q', 'clash'); put(w, 'b.txt', 'resolved\n'); put(w, U, 'resolved\n'); must(w, 'add', '-A'); },
	rebasing: w => { must(w, 'switch', '-q', 'clash'); git(w, 'rebase', '-q', 'main'); },
	rebased: w => { must(w, 'switch', '-q', 'clash'); git(w, 'rebase', '-q', 'main'); put(w, 'b.txt', 'resolved\n'); put(w, U, 'resolved\n'); must(w, 'add', '-A'); },
	picking: w => { git(w, 'cherry-pick', 'clash', 'feature'); },
	picked: w => { git(w, 'cherry-pick', 'clash', 'feature'); put(w, 'b.txt', 'resolved\n'); put(w, U, 'resolved\n'); must(w, 'add', '-A'); },
	reverting: w => { put(w, 'b.txt', 'b1\nlater\nb3\n'); put(w, U, 'later\n'); commit(w, 'later'); git(w, 'revert', '--no-edit', 'HEAD~1'); },
	reverted: w => { put(w, 'b.txt', 'b1\nlater\nb3\n'); put(w, U, 'later\n'); commit(w, 'later'); git(w, 'revert', '--no-edit', 'HEAD~1'); put(w, 'b.txt', 'resolved\n'); put(w, U, 'resolved\n'); must(w, 'add', '-A'); },
	stashed: w => { put(w, 'a.txt', 'first stash\n'); must(w, 'stash', 'push', '-q'); put(w, 'b.txt', 'second stash\n'); put(w, 'u.txt', 'u\n'); must(w, 'stash', 'push', '-qu', '-m', 'a message: with | colon'); must(w, 'switch', '-q', 'feature'); put(w, 'b.txt', 'third\n'); must(w, 'stash', 'push', '-q', '-m', 'on the feature'); must(w, 'switch', '-q', 'main'); },
	trees: w => { must(w, 'worktree', 'add', '-q', '../wt one', 'feature'); must(w, 'worktree', 'add', '-q', '--detach', '../wt2', 'v1'); put(join(w, '../wt2'), 'a.txt', 'edited\n'); must(w, 'worktree', 'add', '-q', '-b', 'gone', '../wt3'); rmSync(join(w, '../wt3'), { recursive: true, force: true }); must(w, 'worktree', 'lock', '../wt one'); },
	remotes: w => { must(w, 'remote', 'add', 'spaced', '../a b.git'); must(w, 'remote', 'set-url', '--push', 'origin', '../origin.git/'); must(w, 'remote', 'add', 'up', 'https://example.test/x.git'); must(w, 'branch', 'x/y'); },
};
// in the quick tier each tool meets the states that matter to it
const MEETS: Record<string, string[]> = {
	git_stage: ['dirty', 'detached', 'merging', 'unborn'], git_commit: ['clean', 'dirty', 'detached', 'unborn', 'hooked', 'merging', 'merged'], git_amend: ['clean', 'dirty', 'feature', 'behind', 'hooked', 'unborn'],
	git_branch: ['clean', 'dirty', 'untidy', 'detached', 'unborn', 'remotes'], git_checkout: ['clean', 'dirty', 'untidy', 'detached'], git_reset: ['clean', 'dirty', 'feature', 'diverged', 'detached', 'merging'], git_stash: ['clean', 'dirty', 'untidy', 'stashed', 'unborn', 'merging'],
	git_merge: ['clean', 'behind', 'dirty', 'untidy', 'merging', 'merged', 'picking'], git_rebase: ['clean', 'behind', 'dirty', 'diverged', 'rebasing', 'rebased', 'detached'], 'git:cherry-pick': ['clean', 'behind', 'untidy', 'picking', 'picked', 'merging'], git_revert: ['clean', 'dirty', 'feature', 'reverting', 'reverted'],
	git_tag: ['clean', 'unborn', 'detached'], git_remote: ['clean', 'remotes', 'feature'], git_worktree: ['clean', 'trees'], git_fetch: ['clean', 'feature', 'remotes', 'unborn'], git_pull: ['clean', 'behind', 'feature', 'dirty', 'untidy', 'detached'], git_push: ['clean', 'diverged', 'detached'],
};
type Op = { tool: string; in: any; ref: string[][] | 'refuse' | ((w: string) => string[][] | 'refuse' | 'any') };
const unstagedNone = (w: string): boolean => z(must(w, 'diff', '--cached', '--name-only', '-z')).length === 0;
const detached = (w: string): boolean => !git(w, 'symbolic-ref', '-q', 'HEAD').ok;
const OPS: Op[] = [];
const op = (tool: string, input: any, ref: Op['ref']): void => { OPS.push({ tool, in: input, ref }); };
// stage
for (const p of [['a.txt'], ['.'], ['b.txt', 'dir'], ['nope'], ['-x.txt'], ['ü.txt', 'sp ace'], [U], ['a.txt', 'nope']]) {
	op('git_stage', { op: 'stage', paths: p }, [['add', '--', ...p]]); op('git_stage', { op: 'unstage', paths: p }, [['restore', '--staged', '--', ...p]]);
	op('git_stage', { op: 'stage', paths: p, update: true }, [['add', '-u', '--', ...p]]);
}
op('git_stage', { op: 'stage', paths: [] }, 'refuse');
// commit
for (const x of [{ message: 'plain' }, { message: 'multi\n\nline | "q" $x' }, { message: '-F' }, { message: 'e', allowEmpty: true }, { message: 's', signoff: true }, { message: 'w', author: 'X Y <x@y.test>' }, { message: 'n', verifyHooks: false }, { message: 'd', allowDetached: true }, { message: 'de', allowDetached: true, allowEmpty: true }, { message: '' }] as any[])
	op('git_commit', x, w => x.message === '' || (detached(w) && !x.allowDetached) || (!x.allowEmpty && unstagedNone(w)) ? 'refuse' : [['commit', '-m', x.message, ...(x.signoff ? ['-s'] : []), ...(x.author ? [`--author=${x.author}`] : []), ...(x.allowEmpty ? ['--allow-empty'] : []), ...(x.verifyHooks === false ? ['--no-verify'] : [])]]);
// amend
for (const x of [{ mode: 'message', message: 'amended' }, { mode: 'message' }, { mode: 'staged' }, { mode: 'staged', message: 'folded' }, { mode: 'message', message: 'so', signoff: true }, { mode: 'staged', verifyHooks: false }] as any[])
	op('git_amend', x, x.mode === 'message' && !x.message ? 'refuse' : [['commit', '--amend', ...(x.message ? ['-m', x.message] : ['--no-edit']), ...(x.mode === 'message' ? ['--only'] : []), ...(x.signoff ? ['-s'] : []), ...(x.verifyHooks === false ? ['--no-verify'] : [])]]);
// branch
for (const [x, r] of [[{ op: 'list' }, []], [{ op: 'list', remote: true }, []], [{ op: 'create', name: 'nb' }, [['branch', 'nb']]], [{ op: 'create', name: 'nb', startPoint: 'v1' }, [['branch', 'nb', 'v1']]], [{ op: 'create', name: 'nb', startPoint: 'origin/main', track: true }, [['branch', '--track', 'nb', 'origin/main']]], [{ op: 'create', name: 'feature' }, [['branch', 'feature']]], [{ op: 'create', name: 'bad..name' }, [['branch', 'bad..name']]], [{ op: 'create', name: '-D', startPoint: 'feature' }, 'refuse'], [{ op: 'create', name: 'nb', startPoint: '--force' }, 'refuse'], [{ op: 'create' }, 'refuse'], [{ op: 'switch', name: 'feature' }, [['switch', 'feature']]], [{ op: 'switch', name: 'clash' }, [['switch', 'clash']]], [{ op: 'switch', name: 'nope' }, [['switch', 'nope']]], [{ op: 'switch', name: '--detach' }, 'refuse'], [{ op: 'switch', name: 'remote-only' }, [['switch', 'remote-only']]], [{ op: 'delete', name: 'feature' }, [['branch', '-d', 'feature']]], [{ op: 'delete', name: 'clash', force: true }, [['branch', '-D', 'clash']]], [{ op: 'delete', name: 'main', force: true }, [['branch', '-D', 'main']]], [{ op: 'delete', name: 'nope' }, [['branch', '-d', 'nope']]], [{ op: 'delete', name: '-a' }, 'refuse'], [{ op: 'switch' }, 'refuse'], [{ op: 'delete' }, 'refuse']] as [any, any][]) op('git_branch', x, r);
// checkout
for (const [x, r] of [[{ mode: 'ref', ref: 'feature' }, [['switch', 'feature']]], [{ mode: 'ref', ref: 'feature', discard: true }, [['switch', '--force', 'feature']]], [{ mode: 'ref', ref: 'clash' }, [['switch', 'clash']]], [{ mode: 'ref', ref: 'clash', discard: true }, [['switch', '-f', 'clash']]], [{ mode: 'ref', ref: 'nope' }, [['switch', 'nope']]], [{ mode: 'ref' }, 'refuse'], [{ mode: 'ref', ref: '--detach' }, 'refuse'], [{ mode: 'path', paths: ['a.txt'] }, [['restore', '--source', 'HEAD', '--worktree', '--', 'a.txt']]], [{ mode: 'path', paths: ['a.txt', U], ref: 'v1' }, [['restore', '--source', 'v1', '--worktree', '--', 'a.txt', U]]], [{ mode: 'path', paths: ['dir'] }, [['restore', '--source', 'HEAD', '--worktree', '--', 'dir']]], [{ mode: 'path', paths: ['.'], ref: 'clash' }, [['restore', '--source', 'clash', '--worktree', '--', '.']]], [{ mode: 'path', paths: ['nope'] }, [['restore', '--source', 'HEAD', '--worktree', '--', 'nope']]], [{ mode: 'path', paths: [] }, 'refuse'], [{ mode: 'path', paths: ['a.txt'], ref: 'nope' }, [['restore', '--source', 'nope', '--worktree', '--', 'a.txt']]]] as [any, any][]) op('git_checkout', x, r);
// reset
for (const mode of [undefined, 'soft', 'mixed', 'hard']) for (const ref of ['HEAD', 'HEAD~1', 'v1', 'origin/main', 'feature', '@{upstream}', 'nope', '--merge', undefined]) op('git_reset', { ...(mode ? { mode } : {}), ...(ref ? { ref } : {}) }, ref === undefined || ref.startsWith('-') ? 'refuse' : [['reset', `--${mode ?? 'mixed'}`, ref]]);
// stash
for (const [x, r] of [[{ op: 'list' }, []], [{ op: 'show' }, (w: string) => (git(w, 'stash', 'show', '-p').ok ? [] : [['stash', 'show', '-p']])], [{ op: 'show', ref: 'stash@{1}' }, (w: string) => [['stash', 'show', '-p', 'stash@{1}']]], [{ op: 'show', ref: '--output=leak' }, 'refuse'], [{}, [['stash', 'push']]], [{ op: 'push', includeUntracked: true }, [['stash', 'push', '-u']]], [{ op: 'push', keepIndex: true, message: 'kept: it' }, [['stash', 'push', '--keep-index', '-m', 'kept: it']]], ...['pop', 'apply', 'drop'].flatMap(o => [[{ op: o }, [['stash', o]]], [{ op: o, ref: 'stash@{1}' }, [['stash', o, 'stash@{1}']]], [{ op: o, ref: 'stash@{7}' }, [['stash', o, 'stash@{7}']]]]), [{ op: 'clear' }, [['stash', 'clear']]]] as [any, any][]) op('git_stash', x, r);
// merge
for (const ref of ['feature', 'clash', 'v1', 'nope', 'origin/main']) for (const [s, a] of [[undefined, []], ['default', []], ['ff-only', ['--ff-only']], ['no-ff', ['--no-ff']], ['squash', ['--squash']]] as [string | undefined, string[]][]) for (const message of s === 'squash' || s === 'ff-only' ? [undefined] : [undefined, 'merge message']) op('git_merge', { ref, ...(s ? { strategy: s } : {}), ...(message ? { message } : {}) }, [['merge', ...a, ...(message ? ['-m', message] : []), ref]]);
op('git_merge', { abort: true }, [['merge', '--abort']]); op('git_merge', {}, 'refuse'); op('git_merge', { ref: '--abort' }, 'refuse');
// rebase, cherry-pick, revert
for (const o of ['continue', 'abort', 'skip']) { op('git_rebase', { op: o }, [['rebase', `--${o}`]]); op('git:cherry-pick', { op: o }, [['cherry-pick', `--${o}`]]); op('git_revert', { op: o }, [['revert', `--${o}`]]); }
for (const [x, r] of [[{ onto: 'feature' }, [['rebase', 'feature']]], [{ op: 'start', onto: 'clash' }, [['rebase', 'clash']]], [{ onto: 'v1', upstream: 'HEAD~1' }, [['rebase', '--onto', 'v1', 'HEAD~1']]], [{ onto: 'feature', autostash: true }, [['rebase', '--autostash', 'feature']]], [{ onto: 'nope' }, [['rebase', 'nope']]], [{}, 'refuse'], [{ onto: '--root' }, 'refuse'], [{ onto: 'v1', upstream: '--exec=touch leak' }, 'refuse']] as [any, any][]) op('git_rebase', x, r);
for (const [x, a] of [[{ refs: ['feature'] }, ['feature']], [{ refs: ['clash'] }, ['clash']], [{ refs: ['feature', 'clash'] }, ['feature', 'clash']], [{ refs: ['v1..feature'] }, ['v1..feature']], [{ refs: ['feature'], noCommit: true }, ['--no-commit', 'feature']], [{ refs: ['feature'], signoff: true }, ['-s', 'feature']], [{ refs: ['feature'], mainline: 1 }, ['--mainline', '1', 'feature']], [{ refs: ['nope'] }, ['nope']]] as [any, string[]][]) op('git:cherry-pick', x, [['cherry-pick', ...a]]);
op('git:cherry-pick', { refs: [] }, 'refuse'); op('git:cherry-pick', { refs: ['feature', '--quit'] }, 'refuse'); op('git_revert', { refs: ['--abort'] }, 'refuse'); op('git_revert', {}, 'refuse');
for (const [x, a] of [[{ refs: ['HEAD'] }, ['HEAD']], [{ refs: ['HEAD~1'] }, ['HEAD~1']], [{ refs: ['HEAD', 'HEAD~1'] }, ['HEAD', 'HEAD~1']], [{ refs: ['v2^{commit}'], noCommit: true }, ['--no-commit', 'v2^{commit}']], [{ refs: ['clash'] }, ['clash']], [{ refs: ['HEAD'], mainline: 1 }, ['--mainline', '1', 'HEAD']]] as [any, string[]][]) op('git_revert', x, [['revert', '--no-edit', ...a]]);
// tag, remote, worktree
for (const [x, r] of [[{ op: 'list' }, []], [{ op: 'list', pattern: 'v2*' }, []], [{ op: 'create', name: 't1' }, [['tag', 't1', 'HEAD']]], [{ op: 'create', name: 't1', ref: 'feature', message: 'about t1' }, [['tag', '-a', '-m', 'about t1', 't1', 'feature']]], [{ op: 'create', name: 'v1' }, [['tag', 'v1']]], [{ op: 'create', name: '-d', ref: 'v1' }, 'refuse'], [{ op: 'create', name: 't1', ref: 'nope' }, [['tag', 't1', 'nope']]], [{ op: 'delete', name: 'v2' }, [['tag', '-d', 'v2']]], [{ op: 'delete', name: 'nope' }, [['tag', '-d', 'nope']]], [{ op: 'delete' }, 'refuse'], [{ op: 'create' }, 'refuse']] as [any, any][]) op('git_tag', x, r);
for (const [x, r] of [[{ op: 'list' }, []], [{ op: 'add', name: 'r2', url: '../r 2.git' }, [['remote', 'add', 'r2', '../r 2.git']]], [{ op: 'add', name: 'origin', url: 'x' }, [['remote', 'add', 'origin', 'x']]], [{ op: 'add', name: 'r2' }, 'refuse'], [{ op: 'add', name: '-f', url: 'origin' }, 'refuse'], [{ op: 'remove', name: 'origin' }, [['remote', 'remove', 'origin']]], [{ op: 'remove', name: 'nope' }, [['remote', 'remove', 'nope']]], [{ op: 'set-url', name: 'origin', url: '../else.git' }, [['remote', 'set-url', 'origin', '../else.git']]], [{ op: 'set-url', name: 'origin', url: '../else.git', push: true }, [['remote', 'set-url', '--push', 'origin', '../else.git']]], [{ op: 'rename', name: 'origin', newName: 'old' }, [['remote', 'rename', 'origin', 'old']]], [{ op: 'rename', name: 'origin' }, 'refuse']] as [any, any][]) op('git_remote', x, r);
for (const [x, r] of [[{ op: 'list' }, []], [{ op: 'add', path: '../nw', branch: 'clash' }, [['worktree', 'add', '../nw', 'clash']]], [{ op: 'add', path: '../nw', branch: 'nb', createBranch: true }, [['worktree', 'add', '-b', 'nb', '../nw']]], [{ op: 'add', path: '../nw', detach: true }, [['worktree', 'add', '--detach', '../nw']]], [{ op: 'add', path: '../nw' }, [['worktree', 'add', '../nw']]], [{ op: 'add', path: '../nw', branch: 'main' }, [['worktree', 'add', '../nw', 'main']]], [{ op: 'add' }, 'refuse'], [{ op: 'add', path: '-f', branch: 'main' }, 'refuse'], [{ op: 'remove', path: '../wt2' }, [['worktree', 'remove', '../wt2']]], [{ op: 'remove', path: '../wt2', force: true }, [['worktree', 'remove', '-f', '../wt2']]], [{ op: 'remove', path: '../wt one', force: true }, [['worktree', 'remove', '-f', '../wt one']]], [{ op: 'remove' }, 'refuse'], [{ op: 'move', path: '../wt2', newPath: '../wt 9' }, [['worktree', 'move', '../wt2', '../wt 9']]], [{ op: 'move', path: '../wt2' }, 'refuse'], [{ op: 'prune' }, [['worktree', 'prune']]]] as [any, any][]) op('git_worktree', x, r);
// fetch, pull
for (const [x, r] of [[{}, [['fetch', 'origin']]], [{ remote: 'origin', prune: true }, [['fetch', '--prune', 'origin']]], [{ all: true }, [['fetch', '--all']]], [{ tags: true }, [['fetch', '--tags', 'origin']]], [{ remote: 'nope' }, [['fetch', 'nope']]], [{ remote: '--upload-pack=touch leak;git-upload-pack' }, 'refuse'], [{ depth: 1 }, [['fetch', '--depth=1', 'origin']]]] as [any, any][]) op('git_fetch', x, r);
for (const mode of [undefined, 'ff-only', 'merge', 'rebase'] as const) { const m = mode === 'merge' ? '--no-rebase' : mode === 'rebase' ? '--rebase' : '--ff-only', i = mode ? { mode } : {}; op('git_pull', i, [['pull', m]]); op('git_pull', { ...i, autostash: true }, [['pull', m, '--autostash']]); op('git_pull', { ...i, remote: 'origin', branch: 'feature' }, [['pull', m, 'origin', 'feature']]); op('git_pull', { ...i, branch: 'unseen' }, w => (git(w, 'remote').out === '' ? 'any' : [['pull', m, 'origin', 'unseen']])); op('git_pull', { ...i, branch: 'nope' }, [['pull', m, 'origin', 'nope']]); op('git_pull', { ...i, remote: 'origin' }, w => { const b = git(w, 'symbolic-ref', '--short', 'HEAD').out.trim(); return [['pull', m, 'origin', ...(b ? [b] : [])]]; }); }
op('git_pull', { dryRun: true }, w => (git(w, 'symbolic-ref', '-q', 'HEAD').ok ? [['fetch']] : [['fetch']])); op('git_pull', { dryRun: true, remote: 'origin', branch: 'unseen' }, [['fetch', 'origin', 'unseen']]); op('git_pull', { dryRun: true, branch: 'unseen' }, [['fetch', 'origin', 'unseen']]); op('git_pull', { remote: '--upload-pack=touch leak;git-upload-pack' }, 'refuse'); op('git_pull', { remote: 'origin', branch: '--force' }, 'refuse');
// push: every spelling of what is pushed x every way to force it
const PROT = (b: string): boolean => /^(main|master|trunk)$/.test(b) || b.startsWith('release/');
const REFS: [string | undefined, (w: string, cur: string) => string | null][] = [
	[undefined, (_w, cur) => cur || null], ['feature', () => 'feature'], ['main', () => 'main'], ['HEAD', (_w, cur) => cur || 'HEAD'], ['HEAD:main', () => 'main'], ['feature:main', () => 'main'], ['refs/heads/main', () => 'main'], ['clash:refs/heads/main', () => 'main'], ['+main', () => 'main'], ['+clash:main', () => 'main'], ['release/1', () => 'release/1'], ['clash:release/1', () => 'release/1'], ['mainline', () => 'mainline'], ['clash:mainline', () => 'mainline'], ['clash:topic', () => 'topic'], ['clash:feature', () => 'feature'], ['v1', () => 'v1'], ['nope', () => 'nope'], ['refs/heads/*:refs/heads/*', () => 'main'], [':', () => 'main'], ['heads/main', () => 'main'],
];
for (const [ref, dst] of REFS) for (const f of [{}, { force: true }, { forceRaw: true }, { force: true, forceRaw: true }] as any[]) for (const to of [false, true]) for (const more of to || f.forceRaw || !THOROUGH && !['feature', undefined, 'clash:topic'].includes(ref) ? [{}] : [{}, { setUpstream: true }, { dryRun: true }, { tags: true }] as any[]) {
	const input = { ...(ref !== undefined ? { ref } : {}), ...f, ...(to ? { forceToMain: true } : {}), ...more };
	op('git_push', input, w => {
		const cur = git(w, 'symbolic-ref', '--short', '-q', 'HEAD').out.trim(), d = dst(w, cur);
		if (d === null) return 'refuse';
		const forced = f.force || f.forceRaw || ref?.startsWith('+');
		if (forced && PROT(d) && !to) return 'refuse';
		return [['push', ...(more.setUpstream ? ['-u'] : []), ...(more.dryRun ? ['--dry-run'] : []), ...(more.tags ? ['--follow-tags'] : []), ...(f.forceRaw ? ['--force'] : f.force ? ['--force-with-lease'] : []), 'origin', ref ?? cur]];
	});
}
for (const x of [{ ref: '--mirror' }, { ref: '--delete' }, { remote: '--receive-pack=touch leak' }, { remote: '--force', ref: 'main' }]) op('git_push', x, 'refuse');
op('git_push', { remote: 'nope' }, w => (detached(w) ? 'refuse' : [['push', 'nope', 'HEAD']]));

function tree(d: string, rel = '', out: string[] = []): string[] {
	for (const e of readdirSync(join(d, rel)).sort()) {
		const p = rel ? `${rel}/${e}` : e; if (p === 'work/.git' || p === 'origin.git') continue;
		const st = lstatSync(join(d, p));
		if (st.isDirectory()) tree(d, p, out); else out.push(`${p}\0${st.isSymbolicLink() ? readlinkSync(join(d, p)) : e === '.git' ? '' : readFileSync(join(d, p), 'latin1')}\0${st.mode & 0o111}`);
	}
	return out;
}
const rd = (p: string): string | null => (existsSync(p) ? readFileSync(p, 'utf8') : null);
function snap(d: string): any {
	const w = join(d, 'work'), g = join(w, '.git'), o = join(d, 'origin.git');
	return {
		head: rd(join(g, 'HEAD')), refs: git(w, 'for-each-ref', '--format=%(refname) %(objectname) %(symref)').out.split('\n').filter(l => !l.startsWith('refs/stash')), origin: git(o, 'for-each-ref', '--format=%(refname) %(objectname)').out, index: git(w, 'ls-files', '-s', '-z').out,
		files: tree(d), stash: (rd(join(g, 'logs/refs/stash')) ?? '').split('\n').map(l => l.split(' ')[1] + (l.split('\t')[1] ?? '')),
		state: ['MERGE_HEAD', 'CHERRY_PICK_HEAD', 'REVERT_HEAD', 'rebase-merge', 'rebase-apply', 'sequencer', 'SQUASH_MSG', 'shallow'].filter(f => existsSync(join(g, f))), config: rd(join(g, 'config')), trees: existsSync(join(g, 'worktrees')) ? readdirSync(join(g, 'worktrees')).sort().map(t => [t, rd(join(g, 'worktrees', t, 'HEAD')), (rd(join(g, 'worktrees', t, 'gitdir')) ?? '').replaceAll(d, 'ROOT')]) : [],
	};
}
const differs = (a: any, b: any): string => Object.keys(a).filter(k => canon(a[k]) !== canon(b[k])).map(k => `${k}: ${canon(Array.isArray(a[k]) ? a[k].filter((x: any) => !b[k].some((y: any) => canon(x) === canon(y))) : a[k]).slice(0, 160)} / ${canon(Array.isArray(b[k]) ? b[k].filter((x: any) => !a[k].some((y: any) => canon(x) === canon(y))) : b[k]).slice(0, 160)}`).join('; ');
const unmerged = (w: string): string[] => [...new Set(z(git(w, 'ls-files', '-u', '-z').out).map(l => l.slice(l.indexOf('\t') + 1)))].sort();

main(async () => {
	const chk = new Check('C34', 'exploration');
	chk.rule = 'a case is non-trivial when the operation succeeded, ended in a conflict or was refused by a guard';
	await chk.sharded(async mine => {
		const B = await repo('src/daemon/tools/builtins/git/index.ts'), RG = await repo('src/daemon/tools/registry.ts');
		B.registerGitTools();
		const tpl = join(SCRATCH, 'tpl'); build(join(tpl, 'base'));
		const cp = (a: string, b: string): void => { rmSync(b, { recursive: true, force: true }); execFileSync('cp', ['-a', a, b]); };
		for (const s of Object.keys(STATES)) { cp(join(tpl, 'base'), join(tpl, s)); STATES[s]!(join(tpl, s, 'work')); }
		const A = join(SCRATCH, 'run'), R = join(SCRATCH, 'ref'), used = new Set<string>(), pres = new Map<string, any>();
		const upstream = (w: string): boolean => git(w, 'rev-parse', '@{upstream}').ok;
		/** one operation of a tool on a copy of `dir`, against plain git on another */
		const one = async (dir: string, o: Op, ctx: any): Promise<void> => {
			// both run under the same path, one after the other, so that absolute paths git records agree
			const tool = RG.getTool(o.tool); if (!tool) { chk.violation('missing', `no tool ${o.tool}`, ctx); return; }
			chk.evaluations++; chk.states++; used.add(o.tool);
			cp(dir, A); const w = join(A, 'work'), pre = dir.endsWith('/pair') ? snap(A) : pres.get(dir) ?? pres.set(dir, snap(A)).get(dir), ref = typeof o.ref === 'function' ? o.ref(w) : o.ref;
			if (ref === 'any') return;
			const needsForce = o.tool === 'git_reset' && typeof o.in.ref === 'string' ? upstream(w) && git(w, 'rev-parse', '--verify', '-q', `${o.in.ref}^{commit}`).ok && !git(w, 'merge-base', '--is-ancestor', '@{upstream}', o.in.ref).ok : o.tool === 'git_amend' || o.tool === 'git_rebase' ? upstream(w) && git(w, 'merge-base', '--is-ancestor', 'HEAD', '@{upstream}').ok : false;
			const wasHead = git(w, 'rev-parse', '--short', 'HEAD').out.trim(), wasBranch = git(w, 'symbolic-ref', '--short', '-q', 'HEAD').out.trim();
			let refOk = true, post: any = pre;
			if (ref !== 'refuse') { for (const a of ref) if (refOk) refOk = git(w, ...a).ok; post = snap(A); cp(dir, A); }
			const asks = typeof tool.requiresApproval === 'function' ? tool.requiresApproval({ ...o.in, cwd: w }) : tool.requiresApproval === true;
			let r: any;
			try {
				if (asks) {
					const gate = await tool.buildApprovalGate({ ...o.in, cwd: w }), text = `${gate.title}\n${gate.content}`;
					for (const k of ['ref', 'name', 'newName', 'onto', 'path', 'newPath', 'remote', 'startPoint', 'url', 'author']) if (typeof o.in[k] === 'string' && o.in[k] !== '' && !(k === 'startPoint' && o.in.op !== 'create') && !(k === 'url' && o.in.op === 'rename') && !text.includes(o.in[k])) chk.violation('gate', `${o.tool} asks for approval without naming ${k} "${o.in[k]}": ${text}`, ctx);
					for (const k of ['paths', 'refs']) for (const v of o.in[k] ?? []) if (!text.includes(v)) chk.violation('gate', `${o.tool} asks for approval without naming "${v}"`, ctx);
					if (['git_reset', 'git_amend', 'git_rebase'].includes(o.tool) && ref !== 'refuse' && (o.in.op === undefined || o.in.op === 'start') && /force/i.test(gate.content) !== needsForce) chk.violation('gate force', `${o.tool} ${canon(o.in)}: the approval ${needsForce ? 'does not warn' : 'warns'} of a force push`, ctx);
				}
				r = await tool.execute({ ...o.in, cwd: w }, {});
			} catch (e) { chk.violation('threw', `${o.tool} throws: ${(e as Error).message}`, ctx); return; }
			const now = snap(A);
			if (ref === 'refuse') {
				chk.nontrivial++;
				if (r.success !== false) chk.violation('guard', `${o.tool} ${canon(o.in)} is carried out`, ctx);
				if (canon(now) !== canon(pre)) chk.violation('guard', `${o.tool} ${canon(o.in)} is refused, yet changed ${differs(now, pre)}`, ctx);
				return;
			}
			if (r.success !== refOk) chk.violation('outcome', `${o.tool} ${canon(o.in)} ${r.success ? 'succeeds' : `fails (${r.error})`}, git ${refOk ? 'succeeds' : 'fails'}`, ctx);
			if (canon(now) !== canon(post)) chk.violation('effect', `${o.tool} ${canon(o.in)} leaves ${differs(now, post)} (tool / git)`, ctx);
			if (!asks) { const strip = (s: any): any => ({ ...s, refs: s.refs.filter((l: string) => !/^refs\/(remotes|tags)\//.test(l)), state: s.state.filter((x: string) => x !== 'shallow') }); if (canon(strip(now)) !== canon(strip(pre))) chk.violation('unapproved', `${o.tool} ${canon(o.in)} changes the repository without approval`, ctx); }
			if (r.success === false && (typeof r.error !== 'string' || r.error === '')) chk.violation('silent failure', `${o.tool} ${canon(o.in)} fails without saying why`, ctx);
			if (r.success) chk.nontrivial++;
			// what is reported
			const d = r.data, bad = (what: string, got: any, want: any): void => { if (canon(got ?? null) !== canon(want ?? null)) chk.violation('report', `${o.tool} ${canon(o.in)} reports ${what} ${canon(got ?? null)}, git has ${canon(want ?? null)}`, ctx); };
			const br = git(w, 'symbolic-ref', '--short', '-q', 'HEAD').out.trim();
			if (['git_merge', 'git_rebase', 'git:cherry-pick', 'git_revert'].includes(o.tool)) {
				const un = unmerged(w);
				if (!r.success && un.length && o.in.abort !== true && o.in.op !== 'abort') { chk.nontrivial++; bad('conflicts', d && [d.inConflict, [...d.conflicts].sort()], [true, un]); }
				if (r.success) { bad('conflicts', [d.inConflict, d.conflicts], [false, []]); if (o.tool === 'git_rebase') bad('head', [d.shortSha, d.branch], [git(w, 'rev-parse', '--short', 'HEAD').out.trim(), br || '(detached)']); }
				return;
			}
			if (!r.success) return;
			if (o.tool === 'git_stage') bad('the index', d.indexAfter, z(git(w, 'diff', '--cached', '--name-only', '-z').out));
			if (o.tool === 'git_commit') {
				bad('the commit', [d.sha, d.shortSha, d.branch], [git(w, 'rev-parse', 'HEAD').out.trim(), git(w, 'rev-parse', '--short', 'HEAD').out.trim(), br || '(detached)']);
				if (!git(w, 'rev-parse', '-q', '--verify', 'HEAD^2').ok) { const n = z(git(w, 'show', '--numstat', '--no-renames', '-z', '--format=', 'HEAD').out), m = git(w, 'show', '--numstat', '--format=', 'HEAD').out.split('\n').filter(Boolean).map(l => l.split('\t')); void n; bad('its size', [d.filesChanged, d.insertions, d.deletions], [m.length, m.reduce((s, l) => s + (Number(l[0]) || 0), 0), m.reduce((s, l) => s + (Number(l[1]) || 0), 0)]); }
			}
			if (o.tool === 'git_amend') bad('the commit', [d.sha, d.message, d.branch, d.requiresForcePush, d.mode], [git(w, 'rev-parse', 'HEAD').out.trim(), git(w, 'log', '-1', '--format=%B').out.trimEnd(), br || '(detached)', needsForce, o.in.mode]);
			if (o.tool === 'git_reset') bad('the reset', [d.mode, d.branch, d.previousShortSha, d.requiresForcePush], [o.in.mode ?? 'mixed', wasBranch || '(detached)', wasHead, needsForce]);
			if (o.tool === 'git_checkout' && o.in.mode === 'ref') bad('the branch left', d.previous, wasBranch || undefined);
			if (o.tool === 'git_branch' && o.in.op === 'list') {
				const want = git(w, 'for-each-ref', '--format=%(refname:short)%00%(HEAD)%00%(upstream:short)%00%(objectname:short)%00%(subject)%00%(symref)', 'refs/heads', ...(o.in.remote ? ['refs/remotes'] : [])).out.split('\n').filter(Boolean).map(l => l.split('\0')).filter(l => !l[5]).map(l => [l[0], l[1] === '*', l[2] || null, l[3], l[4]]);
				bad('branches', d.branches.filter((b: any) => !b.name.startsWith('(')).map((b: any) => [b.name.replace(/^remotes\//, ''), b.current, b.upstream ?? null, b.shortSha, b.subject]).sort(), want.sort());
			}
			if (o.tool === 'git_tag' && o.in.op === 'list') bad('tags', d.tags.map((t: any) => [t.name, t.shortSha, t.subject]), git(w, 'for-each-ref', '--format=%(refname:short)%00%(objectname:short)%00%(contents:subject)', 'refs/tags').out.split('\n').filter(Boolean).map(l => l.split('\0')).filter(l => !o.in.pattern || l[0]!.startsWith('v2')));
			if (o.tool === 'git_stash' && o.in.op === 'list') bad('stashes', d.entries.map((e: any) => [e.ref, e.branch, e.message]), git(w, 'log', '-g', '--format=%gd%x00%gs', 'refs/stash').out.split('\n').filter(Boolean).map(l => { const [ref, gs] = l.split('\0'), s = gs!.replace(/^(WIP on|On) /, ''), i = s.indexOf(': '); return [ref!.replace('refs/', ''), s.slice(0, i), s.slice(i + 2)]; }));
			if (o.tool === 'git_stash' && o.in.op === 'show') bad('the stash', d.output, git(w, 'stash', 'show', '-p', '--no-color', o.in.ref ?? 'stash@{0}').out);
			if (o.tool === 'git_remote' && o.in.op === 'list') bad('remotes', d.remotes.map((x: any) => [x.name, x.fetchUrl, x.pushUrl]), git(w, 'remote').out.split('\n').filter(Boolean).map(n => [n, git(w, 'remote', 'get-url', n).out.trim(), git(w, 'remote', 'get-url', '--push', n).out.trim()]));
			if (o.tool === 'git_worktree' && o.in.op === 'list') bad('worktrees', d.worktrees.map((x: any) => [x.path, x.head, x.branch ?? null, x.detached, x.locked, x.prunable]), git(w, 'worktree', 'list', '--porcelain', '-z').out.split('\0\0').filter(Boolean).map(s => { const f = s.split('\0'), g = (k: string): string | null => f.find(l => l.startsWith(k + ' '))?.slice(k.length + 1) ?? null; return [g('worktree'), g('HEAD'), g('branch')?.replace('refs/heads/', '') ?? null, f.includes('detached'), f.some(l => /^locked/.test(l)), f.some(l => /^prunable/.test(l))]; }));
			if (o.tool === 'git_push') { bad('the push', [d.pushed, d.forceMode], [o.in.dryRun !== true, o.in.forceRaw || o.in.ref?.startsWith('+') ? 'raw' : o.in.force ? 'lease' : 'none']); if (o.in.ref && !/[:*]$|nope/.test(o.in.ref) && !o.in.ref.startsWith(':')) bad('what was pushed', d.shortSha, git(w, 'rev-parse', '--short', o.in.ref.replace(/^\+/, '').replace(/:.*/, '')).out.trim()); }
			if (o.tool === 'git_pull' && o.in.branch) bad('the branch', d.branch, o.in.branch);
		};
		let job = 0;
		for (const s of Object.keys(STATES)) for (const o of OPS) {
			if (!THOROUGH && MEETS[o.tool] && !MEETS[o.tool]!.includes(s)) continue;
			if (!mine(job++)) continue;
			await one(join(tpl, s), o, { state: s, tool: o.tool, input: o.in });
		}
		// after another operation: every pair, the first made by git itself
		const FIRST: [string, string[]][] = [['merged feature', ['merge', '-q', 'feature']], ['conflict in clash', ['merge', '-q', 'clash']], ['a soft reset', ['reset', '-q', '--soft', 'HEAD~1']], ['a hard reset', ['reset', '-q', '--hard', 'HEAD~1']], ['a stash', ['stash', 'push', '-qu']], ['everything staged', ['add', '-A']], ['on the feature', ['switch', '-q', 'feature']], ['an amended head', ['commit', '-q', '--amend', '-m', 'again']], ['a picked feature', ['cherry-pick', 'feature']], ['fetched', ['fetch', '-q']]];
		for (const s of THOROUGH ? Object.keys(STATES) : []) for (const [name, a] of FIRST) {
			const t = join(tpl, 'pair'); let made = false;
			for (const o of OPS) {
				if (o.tool === 'git_push') continue;
				if (!mine(job++)) continue;
				if (!made) { cp(join(tpl, s), t); git(join(t, 'work'), ...a); made = true; }
				await one(t, o, { state: s, then: name, tool: o.tool, input: o.in });
			}
		}
		// the read-only tools, on every state
		for (const s of Object.keys(STATES)) {
			if (!mine(job++)) continue;
			const dir = join(tpl, s), w = join(dir, 'work'), before = canon(snap(dir));
			const run = async (t: string, input: any): Promise<any> => { chk.evaluations++; chk.states++; const r = await RG.getTool(t).execute({ ...input, cwd: w }, {}); if (r.success) chk.nontrivial++; return r; };
			const bad = (t: string, input: any, what: string, got: any, want: any): void => { if (canon(got ?? null) !== canon(want ?? null)) chk.violation('reading', `${s}: ${t} ${canon(input)} reports ${what} ${canon(got ?? null).slice(0, 400)}, git has ${canon(want ?? null).slice(0, 400)}`, { state: s, t, input }); };
			{
				const r = await run('git_status', {}), d = r.data, raw = git(w, 'status', '--porcelain', '-z').out.split('\0'), st: any[] = [], un: any[] = [], nu: any[] = [], co: any[] = [];
				for (let i = 0; i < raw.length; i++) { const l = raw[i]!; if (!l) continue; const x = l[0]!, y = l[1]!, p = l.slice(3); if (x === '?') { nu.push(p); continue; } let from: string | null = null; if (x === 'R' || x === 'C' || y === 'R') from = raw[++i]!; if (x === 'U' || y === 'U' || x + y === 'AA' || x + y === 'DD') { co.push(p); continue; } if (x !== ' ') st.push([p, x, from]); if (y !== ' ') un.push([p, y]); }
				bad('git_status', {}, 'changes', [d.staged.map((e: any) => [e.path, e.code, e.origPath ?? null]), d.unstaged.map((e: any) => [e.path, e.code]), d.untracked, d.conflicts.map((e: any) => e.path), d.clean], [st, un, nu, co, st.length + un.length + nu.length + co.length === 0]);
				const head = git(w, 'symbolic-ref', '--short', '-q', 'HEAD').out.trim(), up = git(w, 'rev-parse', '--abbrev-ref', '@{upstream}'), lr = git(w, 'rev-list', '--left-right', '--count', 'HEAD...@{upstream}');
				bad('git_status', {}, 'branch', [d.branch, d.upstream ?? null, d.ahead ?? null, d.behind ?? null], [head || '(detached)', up.ok ? up.out.trim() : null, ...(lr.ok ? lr.out.trim().split(/\s+/).map(Number) : [null, null])]);
			}
			for (const input of [{}, { staged: true }, { from: 'v1' }, { from: 'v1', to: 'feature' }, { from: 'clash', to: 'main', path: 'dir' }, { path: U }, { from: 'v1', path: 'bin.dat' }, { context: 0, from: 'v1' }, { from: 'nope' }] as any[]) {
				const r = await run('git_diff', input), a = [...(input.staged ? ['--cached'] : input.from ? [`${input.from}..${input.to ?? 'HEAD'}`] : []), ...(input.path ? ['--', input.path] : [])];
				const g = git(w, '-c', 'core.quotePath=false', 'diff', ...(input.context !== undefined ? [`-U${input.context}`] : []), ...a);
				if (r.success !== g.ok) { bad('git_diff', input, 'success', r.success, g.ok); continue; } if (!g.ok) continue;
				if (g.out.trim() && !r.output.includes(g.out.trim())) bad('git_diff', input, 'the diff', r.output, g.out);
				const ns = z(git(w, 'diff', '--name-status', '-z', ...a).out), want: any[] = []; for (let i = 0; i < ns.length;) { const c = ns[i++]![0]!; const from = c === 'R' || c === 'C' ? ns[i++]! : null; want.push([ns[i++]!, from, c]); }
				if (!unmerged(w).length) bad('git_diff', input, 'files', r.data.files.map((f: any) => [f.path, f.origPath ?? null]).sort(), want.map(x => [x[0], x[1]]).sort());
				const nums = git(w, 'diff', '--numstat', ...a).out.split('\n').filter(Boolean).map(l => l.split('\t'));
				if (!unmerged(w).length) bad('git_diff', input, 'totals', [r.data.totalInsertions, r.data.totalDeletions], [nums.reduce((n, l) => n + (Number(l[0]) || 0), 0), nums.reduce((n, l) => n + (Number(l[1]) || 0), 0)]);
			}
			for (const [input, a] of [[{}, ['HEAD']], [{ ref: 'feature' }, ['feature']], [{ ref: 'v1..feature' }, ['v1..feature']], [{ path: 'a.txt' }, ['HEAD', '--', 'a.txt']], [{ path: U }, ['HEAD', '--', U]], [{ limit: 2 }, ['-n2', 'HEAD']], [{ limit: 0 }, ['-n1', 'HEAD']], [{ grep: 'two' }, ['--grep=two', 'HEAD']], [{ author: 'Author' }, ['--author=Author', 'HEAD']], [{ author: 'Nobody' }, ['--author=Nobody', 'HEAD']], [{ since: '2026-01-01T01:30:00Z' }, ['--since=2026-01-01T01:30:00Z', 'HEAD']], [{ until: '2026-01-01T01:30:00Z', ref: 'clash' }, ['--until=2026-01-01T01:30:00Z', 'clash']], [{ ref: 'nope' }, ['nope']]] as [any, string[]][]) {
				const r = await run('git_log', input), i = a.indexOf('--'), g = git(w, 'rev-list', ...(a[0]!.startsWith('-n') ? a : a), ...(i < 0 ? ['--'] : []));
				if (r.success !== g.ok) { bad('git_log', input, 'success', r.success, g.ok); continue; } if (!g.ok) continue;
				const shas = g.out.split('\n').filter(Boolean);
				bad('git_log', input, 'commits', r.data.commits.map((c: any) => [c.sha, c.shortSha, c.author, c.authorEmail, c.subject, c.body, new Date(c.date).getTime()]), shas.map(h => { const f = git(w, 'show', '-s', '--format=%h%x00%an%x00%ae%x00%s%x00%b%x00%at', h).out.split('\0'); return [h, f[0], f[1], f[2], f[3], f[4]!.trimEnd(), Number(f[5]) * 1000]; }));
			}
			for (const input of [{}, { ref: 'v1' }, { ref: 'v2' }, { ref: 'feature' }, { ref: 'main', path: 'dir' }, { ref: 'HEAD~1' }, { ref: 'nope' }, { ref: 'main', path: U }] as any[]) {
				const h = git(w, 'rev-parse', '-q', '--verify', `${input.ref ?? 'HEAD'}^{commit}`); if (input.ref === 'v2') continue; // an annotated tag shows its own header first
				const r = await run('git_show', input);
				if (r.success !== h.ok) { bad('git_show', input, 'success', r.success, h.ok); continue; } if (!h.ok) continue;
				const d = r.data, p = input.path ? ['--', input.path] : [], f = git(w, 'show', '-s', '--format=%P%x00%an%x00%ae%x00%s%x00%b', h.out.trim()).out.split('\0'), ps = f[0]!.split(' ').filter(Boolean);
				bad('git_show', input, 'the commit', [d.sha, d.parents, d.author, d.authorEmail, d.subject, d.body], [h.out.trim(), ps, f[1], f[2], f[3], f[4]!.trimEnd()]);
				if (ps.length > 1) continue;
				const nums = git(w, 'show', '--numstat', '--format=', h.out.trim(), ...p).out.split('\n').filter(Boolean).map(l => l.split('\t'));
				bad('git_show', input, 'size', [d.files.length, d.totalInsertions, d.totalDeletions], [nums.length, nums.reduce((n, l) => n + (Number(l[0]) || 0), 0), nums.reduce((n, l) => n + (Number(l[1]) || 0), 0)]);
				const diff = git(w, '-c', 'core.quotePath=false', 'show', '--format=', h.out.trim(), ...p).out.trim(); if (diff && !r.output.includes(diff)) bad('git_show', input, 'the diff', r.output, diff);
			}
			if (THOROUGH || ['clean', 'dirty', 'detached', 'unborn', 'merging'].includes(s)) for (const path of ['a.txt', 'b.txt', U, 'dir/moved c.txt', 'nope']) for (const lim of [{}, { startLine: 2 }, { startLine: 2, endLine: 3 }, { endLine: 2 }, { startLine: 2, endLine: 2 }, { startLine: 99 }] as any[]) for (const ref of [undefined, 'v1', 'feature']) {
				const input = { path, ...lim, ...(ref ? { ref } : {}) }, r = await run('git_blame', input), g = git(w, 'blame', '--line-porcelain', ...(lim.startLine || lim.endLine ? ['-L', `${lim.startLine ?? 1},${lim.endLine ?? ''}`] : []), ref ?? 'HEAD', '--', path);
				if (r.success !== g.ok) { bad('git_blame', input, 'success', r.success, g.ok); continue; } if (!g.ok) continue;
				const want: any[] = []; let cur: any = {}; for (const l of g.out.split('\n')) { const m = /^([0-9a-f]{40}) \d+ (\d+)/.exec(l); if (m) cur = { sha: m[1], line: Number(m[2]) }; else if (l.startsWith('author ')) cur.author = l.slice(7); else if (l.startsWith('author-mail ')) cur.mail = l.slice(13, -1); else if (l.startsWith('author-time ')) cur.time = Number(l.slice(12)); else if (l.startsWith('summary ')) cur.summary = l.slice(8); else if (l.startsWith('\t')) want.push([cur.line, cur.sha, cur.author, cur.mail, cur.time, cur.summary, l.slice(1)]); }
				bad('git_blame', input, 'lines', r.data.lines.map((l: any) => [l.line, l.sha, l.author, l.authorEmail, l.authorTime, l.summary, l.content]), want);
				const per = new Map<string, number>(); for (const x of want) per.set(x[1], (per.get(x[1]) ?? 0) + 1);
				bad('git_blame', input, 'commits', r.data.commits.map((c: any) => [c.sha, c.lineCount]).sort(), [...per].sort());
			}
			if (canon(snap(dir)) !== before) chk.violation('reading changed', `reading the ${s} repository changed it`, { state: s });
		}
		if (existsSync(A)) rmSync(A, { recursive: true, force: true }); rmSync(R, { recursive: true, force: true });
	});
	chk.assumptions.push('the git on this machine is the reference; every operation runs on its own copy of a scratch repository with a local bare remote');
	chk.extra['operations'] = OPS.length; chk.extra['repository_states'] = Object.keys(STATES).length;
	chk.finish();
});
