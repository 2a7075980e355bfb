// node run.mjs <property> [--replay <file>]
// Supervises the worker: a case on which it hangs (its event loop stands still) or dies is run again by
// itself, and is a violation when that hangs or dies too.
import { spawn } from 'node:child_process';
import { createHash } from 'node:crypto';
import { mkdirSync, mkdtempSync, readFileSync, rmSync, writeFileSync } from 'node:fs';
import { tmpdir } from 'node:os';
import { dirname, join } from 'node:path';
import { fileURLToPath } from 'node:url';

const VERIF = dirname(fileURLToPath(import.meta.url));
const STILL = 12; // looks, 5 s apart, without a heartbeat
const read = (f) => { try { return readFileSync(f); } catch { return undefined; } };

// Runs the worker; null as its verdict when it hung or died.
function work(args) {
  const dir = mkdtempSync(join(tmpdir(), 'verif-run-'));
  return new Promise((resolve) => {
    const child = spawn(process.execPath, [join(VERIF, 'work.mjs'), dir, ...args], { stdio: 'inherit', cwd: VERIF });
    let last;
    let still = 0;
    let how;
    const looking = setInterval(() => {
      const beat = String(read(join(dir, 'beat')));
      still = beat === last ? still + 1 : 0;
      last = beat;
      if (still >= STILL) { how = 'the process stands still: a call does not return'; child.kill('SIGKILL'); }
    }, 5000);
    for (const s of ['SIGINT', 'SIGTERM']) process.once(s, () => { child.kill('SIGKILL'); process.exit(2); });
    child.on('exit', (code, signal) => {
      clearInterval(looking);
      const done = read(join(dir, 'done'));
      const sub = read(join(dir, 'sub'));
      const raw = read(join(dir, 'case'));
      rmSync(dir, { recursive: true, force: true });
      if (done !== undefined && code === Number(done)) return resolve({ code });
      const value = raw && raw.length >= 8 && raw.readDoubleLE(0) > 0 ? raw.subarray(8, 8 + raw.readDoubleLE(0)) : undefined;
      resolve({ code: null, how: how ?? `the process ended with ${signal ?? code} within a call`, sub: sub && String(sub), value });
    });
  });
}

const [id, flag, file] = process.argv.slice(2);
const first = await work(flag ? [id, flag, file] : [id]);
if (first.code !== null) process.exit(first.code);
if (!first.value) { console.log(`${first.how}, but while no case was running`); process.exit(2); }
if (flag === '--replay') {
  console.log(`${first.how}\nVIOLATION property=${id} replay=${file}`);
  process.exit(1);
}
console.log(first.how);
const data = first.value.toString('base64');
const name = `replays/${id}-${createHash('sha1').update(first.sub + data).digest('hex').slice(0, 12)}.json`;
mkdirSync(join(VERIF, 'replays'), { recursive: true });
writeFileSync(join(VERIF, name), `${JSON.stringify({ property: id, sub: first.sub, message: first.how, v8: data }, null, 1)}\n`);
const again = await work([id, '--replay', join(VERIF, name)]);
if (again.code === 0 || (again.code === null && !again.value)) { console.log('not so when the case is run by itself'); process.exit(2); }
if (again.code === null) console.log(`again, ${again.how}\nVIOLATION property=${id} replay=${name}`);
process.exit(1);
