// stand-in for @parcel/watcher: the checker delivers the events
export const subs = [];
export async function subscribe(path, cb, opts) { await null; const s = { path, cb, opts, open: true }; subs.push(s); return { unsubscribe: async () => { await null; s.open = false; } }; }
export default { subscribe };
