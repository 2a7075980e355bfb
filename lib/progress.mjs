// What the worker is doing, in a scratch folder, for run.mjs to read when the worker hangs or dies.
import { Buffer } from 'node:buffer';
import { openSync, writeFileSync, writeSync } from 'node:fs';
import { join } from 'node:path';
import { real } from './env.mjs';

const NONE = Buffer.alloc(8); // no case is running
const setInterval = globalThis.setInterval;
export function progress(dir) {
  const at = openSync(join(dir, 'case'), 'w');
  const beat = openSync(join(dir, 'beat'), 'w');
  let n = 0;
  const parent = real.process.ppid;
  const alive = () => {
    if (real.process.ppid !== parent) real.process.exit(2);
    writeSync(beat, String(++n), 0);
  };
  setInterval(alive, 1000).unref();
  let named = null;
  return {
    atCase(sub, bytes) {
      alive();
      if (sub !== named) { writeFileSync(join(dir, 'sub'), sub); named = sub; }
      const length = Buffer.alloc(8);
      length.writeDoubleLE(bytes.length);
      writeSync(at, Buffer.concat([length, bytes]), 0, undefined, 0);
    },
    idle() { writeSync(at, NONE, 0, undefined, 0); },
    done(code) { writeFileSync(join(dir, 'done'), String(code)); },
  };
}
