// Virtual wall clock for code under test.
const Real = Date;
export const clock = { now: Real.UTC(2026, 0, 1) };
export const DAY = 86_400_000;
class VDate extends Real { constructor(...a: any[]) { if (a.length === 0) super(clock.now); else super(...(a as [any])); } static now(): number { return clock.now; } }
export function installClock(): void { globalThis.Date = VDate as any; }
