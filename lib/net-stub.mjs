// stand-in for node:net: sockets are in-memory pairs whose every chunk is delivered by the checker
import { EventEmitter } from 'node:events';
export const created = { servers: [], conns: [] };
export class Socket extends EventEmitter {
	out = []; destroyed = false; ended = false; writable = true; dec = null;
	setEncoding(e) { this.dec = new TextDecoder(e === 'utf8' ? 'utf-8' : e); return this; }
	setTimeout() { return this; } setNoDelay() { return this; } setKeepAlive() { return this; } unref() { return this; } ref() { return this; } pause() { return this; } resume() { return this; }
	write(s, e, cb) { if (this.destroyed || this.ended) { return false; } this.out.push(Buffer.from(s)); (typeof e === 'function' ? e : cb)?.(); return true; }
	end(s) { if (s !== undefined) this.write(s); this.ended = true; this.writable = false; return this; }
	destroy() { if (!this.destroyed) { this.destroyed = true; this.writable = false; queueMicrotask(() => this.emit('close', false)); } return this; }
	/** bytes arrive */
	deliver(buf) { if (!this.destroyed) this.emit('data', this.dec ? this.dec.decode(buf, { stream: true }) : buf); }
	hangup() { if (!this.destroyed) { this.destroyed = true; this.emit('end'); this.emit('close', false); } }
	sent() { return Buffer.concat(this.out); }
}
export class Server extends EventEmitter {
	constructor(cb) { super(); this.cb = cb; created.servers.push(this); }
	listen(...a) { const cb = a.find(x => typeof x === 'function'); this.listening = true; queueMicrotask(() => { this.emit('listening'); cb?.(); }); return this; }
	close(cb) { this.listening = false; queueMicrotask(() => { this.emit('close'); cb?.(); }); return this; }
	unref() { return this; } address() { return '/stub'; }
	connect() { const s = new Socket(); if (this.cb) this.cb(s); this.emit('connection', s); return s; }
}
export const createServer = (a, b) => new Server(typeof a === 'function' ? a : b);
export const createConnection = () => { const s = new Socket(); created.conns.push(s); return s; };
export const connect = createConnection;
export default { createServer, createConnection, connect, Socket, Server };
