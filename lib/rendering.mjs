// Operations with React content, as generators, for the rendering properties.
import { fc } from './env.mjs';
import * as g from './gen.mjs';
import { batchOptions, batchPayload, broadcastPayload, broadcastUpdate, emailPayload, idemOptions, optArg, templatePayload } from './ops.mjs';

export const reactCall = (how = 'always') => fc.oneof(
  fc.tuple(fc.constantFrom('emails.send', 'emails.create'), emailPayload(how), optArg(idemOptions)).map(([op, p, o]) => ({ op, args: [p, ...o] })),
  fc.tuple(fc.constantFrom('batch.send', 'batch.create'), how === 'always' ? fc.array(fc.oneof({ weight: 3, arbitrary: batchOne('always') }, { weight: 1, arbitrary: batchOne(false) }), { minLength: 1, maxLength: 6 }) : batchPayload(how), optArg(batchOptions)).map(([op, p, o]) => ({ op, args: [p, ...o] })),
  broadcastPayload(how).map((p) => ({ op: 'broadcasts.create', args: [p] })),
  fc.tuple(g.id, broadcastUpdate(how)).map(([i, p]) => ({ op: 'broadcasts.update', args: [i, p] })),
  templatePayload(how).map((p) => ({ op: 'templates.create', args: [p] })),
);
function batchOne(how) {
  return emailPayload(how).map(({ attachments, ...rest }) => rest);
}
// The payloads of a call that can carry a react element.
export const payloadsOf = (call) => (Array.isArray(call.args[0]) ? call.args[0] : [call.op === 'broadcasts.update' ? call.args[1] : call.args[0]]);
