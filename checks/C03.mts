// C03: repo registration, isolation and complete removal over every sequence of registry and storage operations.
import { Check, main, THOROUGH, repo, product, show } from '../lib/mc.mts';
import { explore, isWorker, serveWorker } from '../lib/explore.mts';
import { GraphDomain } from '../lib/graphdom.mts';

const ops = ['addA', 'addB', 'addA2', 'rmA', 'rmB', 'rmEmpty', 'rmZ', 'badRoot', 'badTmp', 'badRel', 'badEmpty', 'badHome', 'badNum', 'statA', 'statEmpty',
	'a1e', 'a23', 'b1e', 'm1', 'badUp', 'emptyUp', 'rx0', 'rbad', 'eb1', 'emany', 'u1', 'umix', 'ubad', 'd1', 'ds', 'xc', 'xcB', 'sessA', 'dR', 'dREmpty', 'duR'];
const full = ['addA', 'addB', 'a1e', 'a23', 'b1e', 'm1', 'd1', 'ep', 'e12', 'emany', 'eb1', 'u1', 'umix', 'ds', 'xc', 'xcB', 'sessA'];
const dom = new GraphDomain(ops, { empty: [], repos: ['addA', 'addB'], full });
if (isWorker) await serveWorker(dom);
else main(async () => {
	const chk = new Check('C03', 'model_checking');
	chk.assumptions.push('LMDB commits atomically and in order', 'the vector store is replaced by an in-memory table with the same contract (lib/lance-stub.mjs)');
	// every path built from the segment alphabet, against an independent normaliser
	const R = await repo('src/db/repos.ts');
	const banned = new Set('/ /tmp /var /usr /bin /sbin /etc /sys /proc /dev /root /Users /home /private /private/tmp /private/var /Library /System /Applications /Volumes /opt /Network /run /boot /srv /mnt /media'.split(' '));
	const segs = ['tmp', 'usr', 'home', 'private', 'opt', 'x', '..', '.', ''];
	let paths = 0;
	for (let n = 0; n <= 4; n++) for (const combo of product(...Array.from({ length: n }, () => segs))) for (const abs of ['/', '']) for (const tail of ['', '/']) {
		const p = abs + combo.join('/') + tail; paths++;
		let want: string | null = null;
		if (p.startsWith('/')) { const st: string[] = []; for (const s of p.split('/')) { if (s === '' || s === '.') continue; if (s === '..') st.pop(); else st.push(s); } const norm = '/' + st.join('/'); want = banned.has(norm) ? null : norm; }
		let got: string | null = null; try { got = R.validateRepoPathShape(p); } catch { got = null; }
		if (got !== want) chk.violation(`path:${p}`, `registering path ${JSON.stringify(p)}: code says ${show(got)}, specification says ${show(want)}`, { path: p });
	}
	// containment: the registered repo that contains a directory is the longest one, only at path-segment boundaries
	const rp = ['/r', '/r/a', '/r/ab', '/r/a/b'], cw = ['/r', '/r/a', '/r/ab', '/r/a/b', '/r/a/bc', '/r/abc/d', '/q', '/', '/r/a/b/c', '/rx'];
	for (let m = 0; m < 16; m++) for (const order of [rp, [...rp].reverse()]) for (const c of cw) {
		const rs = order.filter(p => m & (1 << rp.indexOf(p))); paths++;
		const want = rs.filter(r => c === r || c.startsWith(r + '/')).sort((a, b) => b.length - a.length)[0];
		const got = R.repoContainingCwd(rs.map(path => ({ path })), c);
		if (got !== want) chk.violation(`contain:${rs}:${c}`, `repo containing ${c} among [${rs}]: code says ${got}, specification says ${want}`, { rs, c });
	}
	chk.extra['paths_checked'] = paths;
	await explore(chk, dom, { depth: THOROUGH ? 7 : 4, maxMs: THOROUGH ? 780_000 : 300_000 });
	chk.traces = chk.transitions; chk.extra['operations'] = ops.length;
	chk.finish();
});
