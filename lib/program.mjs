// node program.mjs <bundle dir> <case file>: a program that uses the client, with real timers.
import { readFileSync } from 'node:fs';
import v8 from 'node:v8';
import { callContext, makeResponse } from './net.mjs';
import { loadFresh } from './build.mjs';
import { materialise } from './material.mjs';

const [dir, file] = process.argv.slice(2);
const c = v8.deserialize(readFileSync(file));
const counts = new Map();
globalThis.fetch = async () => {
  const i = callContext.getStore();
  const n = counts.get(i) ?? 0;
  counts.set(i, n + 1);
  return makeResponse(c.steps[i].plan[n] ?? c.steps[i].plan.at(-1));
};
const { Resend } = await loadFresh(dir, c.build);
const clients = Array.from({ length: c.clients }, (_, i) => new Resend(`re_${i}`));
let over;
process.on('exit', () => { process.stdout.write(`over after ${c.steps.length} calls, ended ${over === undefined ? 'before they were over' : `${Math.round(performance.now() - over)} ms later`}\n`); });
await Promise.all(c.steps.map((s, i) => callContext.run(i, async () => {
  const parts = s.call.op.split('.');
  const last = parts.pop();
  const target = parts.reduce((o, k) => o[k], clients[i % clients.length]);
  await target[last](...materialise(s.call.args));
})));
over = performance.now();
