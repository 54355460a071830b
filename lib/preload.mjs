// Module-resolution seams for the code under test: MC_STUB="specifier=path,..." (paths relative to /verif/lib).
import { registerHooks } from 'node:module';
import { pathToFileURL } from 'node:url';
import { join } from 'node:path';
const map = new Map((process.env.MC_STUB ?? '').split(',').filter(Boolean).map(x => x.split('=')));
if (map.size) registerHooks({
	resolve(spec, ctx, next) {
		const to = map.get(spec);
		if (to !== undefined) return { url: pathToFileURL(join(import.meta.dirname, to)).href, shortCircuit: true, format: 'module' };
		return next(spec, ctx);
	},
});
