// A controllable clock: what Date.now() and new Date() say, for code run inside `at`.
import { real } from './env.mjs';

export function at(ms, fn) {
  class FakeDate extends real.Date {
    constructor(...args) { if (args.length === 0) super(ms); else super(...args); }
    static now() { return ms; }
  }
  globalThis.Date = FakeDate;
  try { return fn(); } finally { globalThis.Date = real.Date; }
}
