// C01: the knowledge graph stays referentially consistent and equal to its specification after every operation sequence.
import { Check, main, THOROUGH } from '../lib/mc.mts';
import { explore, isWorker, serveWorker } from '../lib/explore.mts';
import { GraphDomain } from '../lib/graphdom.mts';

const ops = ['a1', 'a1r', 'a1e', 'a23', 'a2x', 'a3k', 'b1', 'm1', 'm1x', 'dup', 'badUp', 'emptyUp', 'd1', 'ep', 'epr', 'rx1', 'rx2', 'rx0', 'ry', 'rbx0',
	'e12', 'emany', 'eb1', 'de12', 'de2', 'u1', 'u1m', 'umix', 'ubad', 'p1', 'pb', 'um', 'umb', 'duF', 'duR', 'dF', 'dId', 'dId2', 'dR', 'dREmpty', 'ds', 'ds2', 'dds', 'ddsR', 'xc', 'emb', 'rmA', 'addA'];
const full = ['addA', 'addB', 'a1', 'a23', 'b1', 'm1', 'd1', 'ep', 'e12', 'emany', 'eb1', 'u1', 'umix', 'ds', 'xc', 'xcB', 'emb'];
const dom = new GraphDomain(ops, { empty: [], repos: ['addA', 'addB'], full, linked: ['addA', 'addB', 'a1e', 'a23', 'b1', 'e12', 'emany'] });
if (isWorker) await serveWorker(dom);
else main(async () => {
	const chk = new Check('C01', 'model_checking');
	chk.assumptions.push('LMDB commits atomically and in order', 'the vector store is replaced by an in-memory table with the same contract (lib/lance-stub.mjs)', 'entity ids are the ones the parser derives: one id never moves between repos or files');
	await explore(chk, dom, { depth: THOROUGH ? 6 : 3, maxMs: THOROUGH ? 780_000 : 300_000 });
	chk.traces = chk.transitions;
	chk.extra['operations'] = ops.length;
	chk.finish();
});
