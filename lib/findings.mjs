// Findings on record: "known: property=<id> <name>: <what fails>" lines of KNOWN_FINDINGS.txt.
import { readFileSync } from 'node:fs';

const print = console.log.bind(console);
// Whether a failure a check recognises by name is on record; said once per run.
export function findings(id) {
  const listed = new Map();
  for (const line of readFileSync(new URL('../KNOWN_FINDINGS.txt', import.meta.url), 'utf8').split('\n')) {
    const [, property, name, what] = line.match(/^known: property=(\S+) ([\w-]+): (.*)$/) ?? [];
    if (property === id) listed.set(name, { what, said: false });
  }
  return (name) => {
    const f = listed.get(name);
    if (!f) return false;
    if (!f.said) print(`KNOWN-FINDING: property=${id} ${name}: ${f.what}`);
    f.said = true;
    return true;
  };
}
