// C12: the daemon's socket protocol: framing under every chunking, one answer per request under every completion order, streams, and the clients.
import { Check, main, THOROUGH, repo, canon, permutations, product } from '../lib/mc.mts';
import { Socket, created } from '../lib/net-stub.mjs';

const tick = async (): Promise<void> => { for (let i = 0; i < 15; i++) await null; };
const NL = 10;
const lines = (s: any): any[] => { const t = s.sent().toString(); if (t !== '' && !t.endsWith('\n')) return [{ unterminated: t }]; return t.split('\n').filter((x: string) => x !== '').map((x: string) => { try { return JSON.parse(x); } catch { return { unparsable: x }; } }); };

main(async () => {
	const chk = new Check('C12', 'model_checking');
	await chk.sharded(async mine => {
		const { IpcServer } = await repo('src/daemon/server.ts'), CL = await repo('src/cli/client.ts'), DS = await repo('src/mcp/daemon-stream.ts');
		let loose = 0; process.on('unhandledRejection', () => { loose++; });
		const bad = (key: string, what: string, h: unknown): void => chk.violation(key, what, h);
		let item = 0;
		const serve = async (h: any, sh: any = {}, now?: () => number): Promise<{ srv: any; conn: () => any; drop: () => Promise<void> }> => { created.servers.length = 0; const srv = new IpcServer(h, sh, ...(now ? [now] : [])); await srv.listen(); const s = created.servers[0]!; return { srv, conn: () => s.connect(), drop: () => srv.close() }; };
		// ---- 1. framing: every way of cutting the byte stream into up to three chunks, and byte by byte
		const V: any[] = [{ t: 'plain' }, { t: 'grün – €' }, { t: '💾x\u2028y', n: [1, null, true] }, { t: 'line\nbreak "q" \\' }, null, 'é', { big: 'ab'.repeat(40) + '語' }];
		const wires: [string, any[]][] = [];
		for (const a of V) { wires.push([JSON.stringify({ id: 1, method: 'echo', params: a }) + '\n', [[1, a]]]); for (const b of V.slice(0, 4)) wires.push([JSON.stringify({ id: 1, method: 'echo', params: a }) + (V.indexOf(b) % 2 ? '\r\n\n  \n' : '\n') + JSON.stringify({ id: 2, method: 'echo', params: b }) + '\n', [[1, a], [2, b]]]); }
		for (const [wire, want] of wires) {
			const bytes = Buffer.from(wire); const cuts: number[][] = [[], Array.from({ length: bytes.length - 1 }, (_, i) => i + 1)];
			for (let i = 1; i < bytes.length; i++) { cuts.push([i]); if (bytes.length < (THOROUGH ? 400 : 150)) for (let j = i + 1; j < bytes.length; j++) cuts.push([i, j]); }
			for (const c of cuts) {
				if (!mine(item++)) continue; chk.states++; chk.transitions += c.length + 1;
				const got: any[] = []; const { conn, drop } = await serve({ echo: async (p: any) => { got.push(p); return p; } }); const s = conn();
				let at = 0; for (const x of [...c, bytes.length]) { s.deliver(bytes.subarray(at, x)); at = x; }
				await tick(); const ctx = { wire, cuts: c };
				const r = lines(s);
				if (canon(got) !== canon(want.map(w => w[1]))) { bad('frame-in', `a request cut at bytes ${c} reaches the handler as ${canon(got)}, sent ${canon(want.map(w => w[1]))}`, ctx); continue; }
				if (canon(r) !== canon(want.map(([id, v]) => ({ id, result: v })))) bad('frame-out', `requests cut at ${c} are answered ${canon(r)}`, ctx);
				await drop();
			}
		}
		chk.sample({ wire: wires[3]![0], cuts: 'all' });
		// ---- 2. every pair (and triple of the interesting ones) of requests, every completion order, two connections, hang-ups
		type D = { res(v: any): void; rej(e: any): void; tag: string };
		const circ: any = {}; circ.self = circ;
		/** name, request, how the handler ends, expected answer; undefined expectation = any single error answer */
		const REQ: [string, any, ((d: D) => void) | null, any][] = [
			['ok', { method: 'slow', params: { a: 1 } }, d => d.res({ v: [d.tag] }), (id: any, t: string) => ({ id, result: { v: [t] } })],
			['undef', { method: 'slow' }, d => d.res(undefined), (id: any) => ({ id })],
			['throws', { method: 'slow' }, d => d.rej(new Error(`boom ${d.tag}`)), (id: any, t: string) => ({ id, error: `boom ${t}` })],
			['throws-string', { method: 'slow' }, d => d.rej(`bare ${d.tag}`), (id: any, t: string) => ({ id, error: `bare ${t}` })],
			['throws-empty', { method: 'slow' }, d => d.rej(new Error('')), undefined],
			['bigint', { method: 'slow' }, d => d.res({ n: 1n }), undefined],
			['circular', { method: 'slow' }, d => d.res(circ), undefined],
			['sync-throw', { method: 'sync' }, null, (id: any) => ({ id, error: 'sync boom' })],
			['unknown', { method: 'nope' }, null, (id: any) => ({ id, error: 'unknown method: nope' })],
			['proto', { method: 'toString' }, null, (id: any) => ({ id, error: 'unknown method: toString' })],
			['proto2', { method: '__proto__' }, null, (id: any) => ({ id, error: 'unknown method: __proto__' })],
			['no-method', {}, null, undefined],
			['stream-as-std', { method: 'slow', stream: true }, d => d.res(d.tag), (id: any, t: string) => ({ id, result: t })],
			['stream-unknown', { method: 'nope', stream: true }, null, (id: any) => ({ id, error: 'unknown method: nope' })],
			['stream-proto', { method: 'constructor', stream: true }, null, (id: any) => ({ id, error: 'unknown method: constructor' })],
			['stream-std-throws', { method: 'slow', stream: true }, d => d.rej(new Error(`s ${d.tag}`)), (id: any, t: string) => ({ id, error: `s ${t}` })],
			['bad-client', { method: 'slow', client: { label: 5, pid: 'x' } }, d => d.res(d.tag), (id: any, t: string) => ({ id, result: t })],
			['null-client', { method: 'slow', client: null }, d => d.res(d.tag), (id: any, t: string) => ({ id, result: t })],
		];
		const RAW: [string, string][] = [['garbage', '{"id":1,'], ['null', 'null'], ['number', '42'], ['string', '"x"'], ['array', '[]'], ['true', 'true']];
		const scenario = async (reqs: number[], conns: number[], order: number[], hang: number | undefined): Promise<void> => {
			chk.states++; chk.transitions += reqs.length * 2; loose = 0;
			const pend: (D | undefined)[] = []; let cur = 0;
			const { srv, conn, drop } = await serve({ slow: (_: any) => new Promise((res, rej) => { pend[cur] = { res, rej, tag: `q${cur}` }; }), sync: () => { throw new Error('sync boom'); } });
			const ss = [conn(), conn()]; const h = { requests: reqs.map((r, i) => `${REQ[r]![0]} on connection ${conns[i]}`), completion: order, hangupAfter: hang };
			for (const [i, r] of reqs.entries()) { cur = i; ss[conns[i]!].deliver(Buffer.from(JSON.stringify({ id: 10 + i, ...REQ[r]![1] }) + '\n')); await tick(); }
			for (const [k, i] of order.entries()) { if (hang === k) { ss[0]!.hangup(); await tick(); } const d = pend[i]; if (d) { REQ[reqs[i]!]![2]!({ ...d }); await tick(); } }
			for (const c of [0, 1]) {
				const got = lines(ss[c]); const own = reqs.map((_, i) => i).filter(i => conns[i] === c);
				if (c === 0 && hang !== undefined) { if (got.some((g: any) => g.unparsable || g.unterminated)) bad('garbled', `torn answer ${canon(got)}`, h); continue; }
				for (const i of own) { const a = got.filter((g: any) => g.id === 10 + i); const e = REQ[reqs[i]!]![3]; const w = e?.(10 + i, `q${i}`);
					if (a.length !== 1) { bad(`answers:${REQ[reqs[i]!]![0]}:${a.length}`, `${REQ[reqs[i]!]![0]} request got ${a.length} answers: ${canon(h)}`, h); continue; }
					if (w !== undefined ? canon(a[0]) !== canon(w) : !(typeof a[0].error === 'string' && a[0].error.length > 0)) bad(`answer:${REQ[reqs[i]!]![0]}`, `${REQ[reqs[i]!]![0]} request is answered ${canon(a[0])}, expected ${w ? canon(w) : 'an error'}: ${canon(h)}`, h); }
				if (got.length !== own.length) bad('extra', `${got.length} answers for ${own.length} requests on connection ${c}: ${canon(got)} ${canon(h)}`, h);
			}
			if (loose) bad('unhandled', `a request left an unhandled rejection: ${canon(h)}`, h);
			if (srv.attachedClients().length !== (hang !== undefined && hang < order.length ? 1 : 2)) bad('attached', `attached clients ${canon(srv.attachedClients())} with ${canon(h)}`, h);
			await drop();
		};
		const N = REQ.length;
		for (let a = 0; a < N; a++) { if (mine(item++)) await scenario([a], [0], [0], undefined); for (let b = 0; b < N; b++) for (const conns of [[0, 0], [0, 1]]) for (const order of permutations([0, 1])) for (const hang of [undefined, 0, 1]) if (mine(item++)) await scenario([a, b], conns, order, hang); }
		for (const t of product<number>([0, 2, 5, 8, 12], [0, 2, 5, 8, 12], [0, 2, 5, 8, 12])) for (const conns of [[0, 0, 0], [0, 1, 0]]) for (const order of permutations([0, 1, 2])) for (const hang of THOROUGH ? [undefined, 0, 1, 2] : [undefined, 1]) if (mine(item++)) await scenario(t, conns, order, hang);
		if (THOROUGH) for (const t of product<number>(...Array.from({ length: 4 }, () => [0, 2, 5, 12]))) for (const order of permutations([0, 1, 2, 3])) if (mine(item++)) await scenario(t, [0, 1, 0, 1], order, undefined);
		for (const [n, raw] of RAW) for (const after of [true, false]) { if (!mine(item++)) continue; chk.states++; loose = 0; const { conn, drop } = await serve({ echo: async (p: any) => p }); const s = conn(); s.deliver(Buffer.from(raw + '\n')); await tick(); if (after) s.deliver(Buffer.from('{"id":5,"method":"echo","params":7}\n')); await tick(); const r = lines(s); if (r.length !== (after ? 2 : 1) || typeof r[0].error !== 'string' || after && canon(r[1]) !== canon({ id: 5, result: 7 }) || loose) bad(`raw:${n}`, `the line ${raw} is answered ${canon(r)}${loose ? ' and leaves an unhandled rejection' : ''}`, { raw }); await drop(); }
		// ---- 3. streams: every script of sends and endings, with a hang-up at every point, next to a plain request on the same connection
		const SEND = [['progress', { p: 1 }], ['delta', { d: 'ü' }], ['done', { ok: 1 }]] as const;
		const scripts: any[][] = [[]]; for (let n = 1; n <= 3; n++) for (const s of product<number>(...Array.from({ length: n }, () => [0, 1, 2]))) if (!s.slice(0, -1).includes(2)) scripts.push(s);
		for (const sc of scripts) for (const end of ['return', 'throw', 'unserialisable']) for (let hang = -1; hang <= sc.length; hang++) for (const how of ['close', 'error']) {
			if (hang < 0 && how === 'error' || !mine(item++)) continue; chk.states++; chk.transitions += sc.length + 1; loose = 0;
			let gate!: () => void, sent = 0, signal!: AbortSignal; const wait = (): Promise<void> => new Promise(r => { gate = r; }); let finished = false;
			const { conn, drop } = await serve({ echo: async (p: any) => p }, { st: async (_p: any, send: any, sig: AbortSignal) => { signal = sig; for (const i of sc) { await wait(); send({ id: 999, stream: SEND[i]![0], data: SEND[i]![1] }); sent++; } await wait(); finished = true; if (end === 'throw') throw new Error('stream boom'); if (end === 'unserialisable') send({ id: 1, stream: 'done', data: { n: 1n } }); } });
			const s = conn(), other = conn(); const base = { c: s.listenerCount('close'), e: s.listenerCount('error') }; s.deliver(Buffer.from('{"id":3,"method":"st","stream":true}\n')); await tick();
			s.deliver(Buffer.from('{"id":4,"method":"echo","params":"between"}\n')); await tick();
			const h = { script: sc.map(i => SEND[i]![0]), end, hang, how };
			for (let k = 0; k <= sc.length; k++) { if (k === hang) { if (how === 'close') s.hangup(); else s.emit('error', new Error('reset')); await tick(); if (!signal.aborted) bad('abort', `hang-up (${how}) does not abort the running stream: ${canon(h)}`, h); } else if (hang < 0 && signal.aborted) bad('spurious-abort', `a live stream was aborted: ${canon(h)}`, h); gate(); await tick(); }
			if (!finished) bad('stream-stuck', `stream handler did not finish ${canon(h)}`, h);
			const r = lines(s), fr = r.filter((x: any) => x.id === 3), wantN = hang < 0 ? sc.length : Math.min(hang, sc.length);
			if (canon(fr.slice(0, wantN)) !== canon(sc.slice(0, wantN).map(i => ({ id: 3, stream: SEND[i]![0], data: SEND[i]![1] })))) bad('stream-frames', `stream frames ${canon(r)} for ${canon(h)}`, h);
			const alien = r.filter((x: any) => x.id !== 3 && x.id !== 4); if (alien.length) bad('stream-id', `frames with a foreign id ${canon(alien)}`, h);
			if (canon(r.filter((x: any) => x.id === 4)) !== canon([{ id: 4, result: 'between' }])) bad('stream-between', `request next to a stream is answered ${canon(r)}`, h);
			const tail = fr.slice(sc.length);
			if (hang < 0 && end === 'return' && tail.length) bad('stream-tail', `extra frames ${canon(tail)} for ${canon(h)}`, h);
			if (hang < 0 && end !== 'return' && (tail.length !== 1 || tail[0].stream !== 'error' || !(tail[0].data?.error?.length > 0) || end === 'throw' && tail[0].data.error !== 'stream boom')) bad(`stream-error:${end}`, `a stream ending with ${end} reports ${canon(tail)}`, h);
			if (hang >= 0 && end === 'throw' && tail.some((x: any) => x.stream === 'error')) bad('stream-error-after-abort', `an aborted stream reports ${canon(tail)}`, h);
			if (s.listenerCount('close') !== base.c || s.listenerCount('error') !== base.e) bad('listeners', `a finished stream leaves listeners behind ${canon(h)}`, h);
			if (lines(other).length || loose) bad('stream-cross', `stream traffic on another connection or unhandled rejection ${canon(h)}`, h);
			await drop();
		}
		// ---- 4. the registry of attached clients: all sequences of connect / identify / close
		const IDS: any[] = [undefined, { label: 'cli', pid: 5 }, { label: 'mcp', pid: 6 }, { label: '', pid: 6 }, { label: 'x'.repeat(65), pid: 6 }, { label: 'x'.repeat(64), pid: 6 }, { label: 'a', pid: -1 }, { label: 'a', pid: 1.5 }, { pid: 3 }, 'str'];
		type RO = ['connect'] | ['msg', number, number] | ['close', number];
		const ROPS: RO[] = [['connect'], ...[0, 1].flatMap(c => IDS.map((_, i) => ['msg', c, i] as RO)), ['close', 0], ['close', 1]];
		const walk = async (seq: RO[]): Promise<void> => {
			if (seq.length && mine(item++)) {
				let t = 100; const { srv, conn, drop } = await serve({ echo: async (p: any) => p, other: async () => 1 }, {}, () => t++); const m: any[] = [], ss: any[] = []; chk.states++; chk.transitions += seq.length;
				for (const [k, o] of seq.entries()) {
					if (o[0] === 'connect') { ss.push(conn()); m.push({ id: m.length + 1, label: 'unknown', connectedAt: 100 + m.length }); }
					else if (o[0] === 'close') { ss[o[1]].hangup(); m[o[1]].gone = true; }
					else { const meth = k % 2 ? 'echo' : 'other'; ss[o[1]].deliver(Buffer.from(JSON.stringify({ id: k, method: meth, ...(IDS[o[2]] !== undefined ? { client: IDS[o[2]] } : {}) }) + '\n')); m[o[1]].lastMethod = meth; if ([1, 2, 5].includes(o[2])) Object.assign(m[o[1]], IDS[o[2]]); }
					await tick(); const want = m.filter(x => !x.gone); if (canon(srv.attachedClients()) !== canon(want)) { bad('registry', `attached clients ${canon(srv.attachedClients())}, expected ${canon(want)} after ${canon(seq.slice(0, k + 1))}`, seq); break; }
				}
				await drop();
			}
			if (seq.length >= (THOROUGH ? 5 : 4)) return;
			const open = seq.filter(o => o[0] === 'connect').length, closed = new Set(seq.filter(o => o[0] === 'close').map(o => o[1]));
			for (const o of ROPS) { if (o[0] === 'connect' ? open >= 2 : o[1] >= open || closed.has(o[1])) continue; await walk([...seq, o]); }
		};
		await walk([]);
		// ---- 5. clients against scripted daemons: every chunking of every answer, and every way a connection can end
		const clients: [string, (c: () => any) => Promise<any>][] = [['rpc', c => CL.rpc('m', { q: 1 }, c)], ['pollRun', c => DS.pollRun('r', 0, { connect: c })]];
		const ANS: [string, string, any, any][] = [['ok', '{"id":1,"result":{"t":"grün €💾"}}\n', { t: 'grün €💾' }, undefined], ['error', '{"id":1,"error":"nö €"}\n', undefined, 'nö €'], ['bad', '{"id":1,"resu\n', undefined, 'invalid response from daemon'], ['null-result', '\n{"id":1,"result":null}\n', null, undefined], ['two', '{"id":1,"result":1}\n{"id":1,"error":"later"}\n', 1, undefined]];
		const settle = async (p: Promise<any>): Promise<any> => { let st: any = 'pending'; p.then(v => { st = { v }; }, e => { st = { e: e.message }; }); await tick(); return st; };
		for (const [cn, call] of clients) {
			for (const [an, wire, v, e] of ANS) { const bytes = Buffer.from(wire); for (let i = 0; i < bytes.length; i++) for (let j = i; j < bytes.length; j++) {
				if (!mine(item++)) continue; chk.states++; chk.transitions++; const s = new Socket() as any; const p = call(() => s); void p.catch(() => 0); s.emit('connect'); s.deliver(bytes.subarray(0, i)); s.deliver(bytes.subarray(i, j)); s.deliver(bytes.subarray(j)); s.hangup();
				const st = await settle(p); const req = lines(s); if (req.length !== 1 || req[0].id === undefined) bad(`client-req:${cn}`, `${cn} sent ${canon(req)}`, {});
				if (canon(st) !== canon(e !== undefined ? { e } : { v })) bad(`client:${cn}:${an}`, `${cn} on the answer ${JSON.stringify(wire)} cut at ${i},${j}: ${canon(st)}, expected ${canon(e ?? v)}`, { cn, an, i, j });
			} }
			for (const err of ['ENOENT', 'ECONNREFUSED', 'EPIPE']) for (const when of [0, 1]) if (mine(item++)) { chk.states++; const s = new Socket() as any; const p = call(() => s); if (when) s.emit('connect'); s.emit('error', Object.assign(new Error(`sock ${err}`), { code: err })); const st = await settle(p); s.hangup(); if (!st.e || (err !== 'EPIPE') !== /daemon is not running/.test(st.e)) bad(`client-err:${cn}`, `${cn} on ${err}: ${canon(st)}`, {}); }
			for (const part of ['', '{"id":1,"res', '\n']) if (mine(item++)) { chk.states++; const s = new Socket() as any; const p = call(() => s); s.emit('connect'); if (part) s.deliver(Buffer.from(part)); s.hangup(); const st = await settle(p); if (!st.e) bad(`client-close:${cn}`, `${cn}: the daemon goes away after sending '${part}' and the call is ${canon(st)}`, { cn, part }); }
		}
		// the streaming client: all frame scripts x cut points x aborts
		const F = ['{"id":1,"stream":"progress","data":{"s":"ü"}}', '{"id":1,"stream":"delta","data":2}', '{"id":1,"stream":"todos","data":0}', '{"id":1,"stream":"done","data":{"runId":"r€"}}', '{"id":1,"stream":"error","data":{"error":"nö"}}', '{bad'];
		for (let n = 0; n <= 3; n++) for (const sc of product<number>(...Array.from({ length: n }, () => [0, 1, 2, 3, 4, 5]))) {
			const bytes = Buffer.from(sc.map(i => F[i] + '\n').join(''));
			for (const mode of ['close', ...Array.from({ length: n + 1 }, (_, i) => `abort${i}`)]) for (let cut = 0; cut <= (mode === 'close' ? bytes.length : 0); cut++) {
				if (cut > 0 && cut === bytes.length || !mine(item++)) continue; chk.states++; chk.transitions += n;
				const s = new Socket() as any; const frames: any[] = []; const ac = new AbortController(); const p = DS.runWorkflowStream({ workflow: 'w', focus: 'f' }, { onFrame: (k: string, d: any) => frames.push([k, d]), signal: ac.signal }, { connect: () => s }); void p.catch(() => 0); s.emit('connect');
				let want: any, wf: any[] = []; const ab = mode === 'close' ? -1 : Number(mode.slice(5));
				for (const [k, i] of sc.entries()) { if (k === ab) { want ??= 'abort'; } if (want === undefined) { if (i < 2) wf.push(i === 0 ? ['progress', { s: 'ü' }] : ['delta', 2]); else if (i === 3) want = { v: { runId: 'r€' } }; else if (i === 4) want = { e: 'nö' }; else if (i === 5) want = 'bad'; } }
				if (ab === n) want ??= 'abort'; want ??= 'closed';
				if (mode === 'close') { s.deliver(bytes.subarray(0, cut)); if (cut < bytes.length) s.deliver(bytes.subarray(cut)); } else for (let k = 0; k <= n; k++) { if (k === ab) ac.abort(); if (k < n) s.deliver(Buffer.from(F[sc[k]!] + '\n')); }
				await tick(); s.hangup(); const st = await settle(p); const h = { frames: sc.map(i => F[i]), mode, cut };
				if (canon(frames) !== canon(wf)) bad('stream-client-frames', `streaming client forwards ${canon(frames)}, expected ${canon(wf)}: ${canon(h)}`, h);
				if (typeof want === 'string' ? !st.e || want === 'abort' && !s.destroyed : canon(st) !== canon(want)) bad('stream-client', `streaming client ends with ${canon(st)}, expected ${canon(want)}: ${canon(h)}`, h);
			}
		}
		if (mine(item++)) { const ac = new AbortController(); ac.abort(); const s = new Socket() as any; const st = await settle(DS.runWorkflowStream({ workflow: 'w', focus: 'f' }, { onFrame: () => 0, signal: ac.signal }, { connect: () => s })); if (!st.e || s.out.length) bad('pre-aborted', `a call aborted beforehand: ${canon(st)}`, {}); }
		// every forwarder sends exactly its own method and parameters, and reports every answer as what it is
		const opt = (o: Record<string, any>): any => Object.fromEntries(Object.entries(o).filter(([, v]) => v !== undefined));
		const FWD: [string, any[], any, any][] = []; // function, arguments, method, parameters
		for (const [repoP, params, review, client] of product<any>([undefined, '/r'], [undefined, {}, { a: [1, 'ü'] }], [undefined, true, false, { provider: 'x' }], [undefined, 'claude', 'codex'])) FWD.push(['startRun', [{ workflow: 'define', focus: 'f "x"', repo: repoP, params, review, client }], 'workflow.run.start', opt({ workflow: 'define', focus: 'f "x"', repo: repoP, params, review, client })]);
		for (const c of [0, 7]) FWD.push(['pollRun', ['r1', c], 'workflow.run.poll', { runId: 'r1', cursor: c }]);
		FWD.push(['abortRun', ['r2'], 'workflow.run.abort', { runId: 'r2' }], ['resolveRepoForCwd', ['/a b'], 'repo.resolveForCwd', { cwd: '/a b' }], ['docgenList', [], 'docgen.list', {}], ['docgenGenerate', [{ docType: 'd', repo: '/r', x: [1] }], 'docgen.generate', { docType: 'd', repo: '/r', x: [1] }]);
		for (const q of [{ repo: '/r', artifactPath: 'p' }, { repo: '/r', epicHash: 'e', overrideReview: 'because' }]) FWD.push(['approveWorkflow', [q], 'workflow.approve', q]);
		FWD.push(['fetchCodeReviewGrounding', [{ repo: '/r', epicHash: 'e', storyId: 's1' }], 'codeReview.grounding', { repo: '/r', epicHash: 'e', storyId: 's1' }], ['fetchCodeReviewFreshness', [{ repo: '/r', epicHash: 'e', storyId: 's1', changedFiles: ['a', 'b'] }], 'codeReview.freshness', { repo: '/r', epicHash: 'e', storyId: 's1', changedFiles: ['a', 'b'] }]);
		/** how a daemon result is reported: itself unless listed */
		const soft = (fn: string): boolean => fn === 'fetchCodeReviewGrounding' || fn === 'fetchCodeReviewFreshness';
		const report = (fn: string, res: any): any => fn === 'resolveRepoForCwd' ? res.path : fn === 'fetchCodeReviewGrounding' ? (res.ok === true && res.grounding !== undefined ? { ok: true, grounding: res.grounding } : { ok: false }) : fn === 'fetchCodeReviewFreshness' ? (res.error === undefined && typeof res.isProcessing === 'boolean' ? { ok: true, isProcessing: res.isProcessing, staleFiles: res.staleFiles ?? [] } : { ok: false }) : res;
		const RESULTS: any[] = [{ path: '/r', ok: true, grounding: { g: 1 }, isProcessing: false, staleFiles: ['a'] }, { path: null, ok: false, reason: 'declined', grounding: { g: 2 }, isProcessing: true, staleFiles: [] }, { path: '/q', ok: true, error: 'bad repo', isProcessing: true }, { path: '/q', ok: true, isProcessing: 'yes' }];
		for (const [fn, args, method, params] of FWD) for (const ans of [...RESULTS.map(r => ({ result: r })), { error: 'no luck' }, 'ENOENT', 'ECONNREFUSED', 'ECONNRESET', 'garbage', 'close']) {
			if (!mine(item++)) continue; chk.states++; chk.transitions++; const s = new Socket() as any; const p = (DS as any)[fn](...args, { connect: () => s }); void p.catch(() => 0); const h = { call: fn, args, answer: ans };
			if (ans !== 'ENOENT' && ans !== 'ECONNREFUSED') s.emit('connect');
			const req = lines(s); if (s.out.length && (req.length !== 1 || req[0].method !== method || canon(req[0].params) !== canon(params) || req[0].stream)) bad(`forward:${fn}`, `${fn} sends ${canon(req)}, expected ${method} ${canon(params)}`, h);
			if (typeof ans === 'object') s.deliver(Buffer.from(JSON.stringify({ id: req[0]?.id ?? 1, ...ans }) + '\n')); else if (ans === 'garbage') s.deliver(Buffer.from('{x\n')); else if (ans !== 'close') s.emit('error', Object.assign(new Error(`sock ${ans}`), { code: ans }));
			if (typeof ans === 'string' && ans !== 'close') { const st0 = await settle(p); if (st0 === 'pending') bad(`forward-hang:${fn}`, `${fn} hangs after ${ans}`, h); }
			s.hangup(); const st = await settle(p); const res = (ans as any).result;
			if (res !== undefined) { const w = report(fn, res); if (soft(fn) && w.ok === false ? st.v?.ok !== false || !(st.v.reason?.length > 0) : canon(st) !== canon({ v: w })) bad(`forward-result:${fn}`, `${fn} reports ${canon(st)} for the answer ${canon(res)}`, h); }
			else if (soft(fn) ? st.v?.ok !== false || !(st.v.reason?.length > 0) : !st.e) bad(`forward-error:${fn}`, `${fn} reports ${canon(st)} for ${canon(ans)}`, h);
			else if (String(ans).startsWith('EN') || ans === 'ECONNREFUSED') { if (!/daemon is not running/.test(soft(fn) ? st.v.reason : st.e)) bad(`forward-error:${fn}`, `${fn} reports ${canon(st)} for ${canon(ans)}`, h); }
		}
		for (const [repoP, params, review] of product<any>([undefined, '/r'], [undefined, {}, { a: 1 }], [undefined, false, true])) for (const end of ['done', 'ENOENT', 'ECONNREFUSED', 'ECONNRESET', 'garbage']) if (mine(item++)) {
			chk.states++; const s = new Socket() as any; const p = DS.runWorkflowStream({ workflow: 'plan', focus: 'f', repo: repoP, params, review }, { onFrame: () => 0 }, { connect: () => s }); void p.catch(() => 0); if (end !== 'ENOENT') s.emit('connect'); const h = { repo: repoP, params, review, end };
			const req = lines(s); if (s.out.length && (req.length !== 1 || req[0].method !== 'workflow.run' || req[0].stream !== true || canon(req[0].params) !== canon(opt({ workflow: 'plan', focus: 'f', repo: repoP, params, review })))) bad('stream-client-request', `the streaming client sends ${canon(req)}`, h);
			if (end === 'done') s.deliver(Buffer.from('{"id":1,"stream":"done","data":{"runId":"x"}}\n')); else if (end === 'garbage') s.deliver(Buffer.from('{x\n')); else s.emit('error', Object.assign(new Error(`sock ${end}`), { code: end }));
			const st = await settle(p); if (end === 'done' ? canon(st) !== canon({ v: { runId: 'x' } }) : !st.e || (end === 'ENOENT' || end === 'ECONNREFUSED') !== /daemon is not running/.test(st.e)) bad('stream-client-end', `the streaming client ends with ${canon(st)} on ${end}`, h);
		}
		// ---- 6. client and server joined: values survive both directions
		for (const v of V) for (const cut of [1, 3, 7]) { if (!mine(item++)) continue; chk.states++; const { conn, drop } = await serve({ m: async (p: any) => ({ back: p }) }); const s = conn(), c = new Socket() as any; const p = CL.rpc('m', v, () => c); void p.catch(() => 0); c.emit('connect'); for (let i = 0, b = c.sent(); i < b.length; i += cut) s.deliver(b.subarray(i, i + cut)); await tick(); for (let i = 0, b = s.sent(); i < b.length; i += cut) c.deliver(b.subarray(i, i + cut)); const st = await settle(p); if (canon(st) !== canon({ v: { back: v } })) bad('round-trip', `${canon(v)} comes back as ${canon(st)}`, { v, cut }); await drop(); }
	});
	chk.traces = chk.transitions;
	chk.finish();
});
