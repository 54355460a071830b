// stand-in for node:child_process: spawning goes to globalThis.__mcSpawn when a check installed one; everything else is real
const real = process.getBuiltinModule('node:child_process');
export const spawn = (c, a, o) => globalThis.__mcSpawn ? globalThis.__mcSpawn(c, Array.isArray(a) ? a : [], (Array.isArray(a) ? o : a) ?? {}) : real.spawn(c, a, o);
export const spawnSync = (c, a, o) => globalThis.__mcSpawnSync ? globalThis.__mcSpawnSync(c, Array.isArray(a) ? a : [], (Array.isArray(a) ? o : a) ?? {}) : real.spawnSync(c, a, o);
export const execFileSync = (c, a, o) => globalThis.__mcExecFileSync ? globalThis.__mcExecFileSync(c, Array.isArray(a) ? a : [], (Array.isArray(a) ? o : a) ?? {}) : real.execFileSync(c, a, o);
export const execFile = (...a) => globalThis.__mcExecFile ? globalThis.__mcExecFile(...a) : real.execFile(...a);
export const { exec, execSync, fork, ChildProcess } = real;
export default { ...real, spawn, spawnSync, execFileSync, execFile };
