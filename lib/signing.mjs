// Webhook signatures computed independently of the library, from the published scheme.
import { Buffer } from 'node:buffer';
import { createHmac } from 'node:crypto';
import { fc } from './env.mjs';
import * as g from './gen.mjs';

export const keyBytes = fc.oneof({ weight: 3, arbitrary: fc.uint8Array({ minLength: 24, maxLength: 32 }) }, { weight: 1, arbitrary: fc.uint8Array({ minLength: 1, maxLength: 100 }) });
export const secretOf = (bytes, prefixed) => `${prefixed ? 'whsec_' : ''}${Buffer.from(bytes).toString('base64')}`;
export const sign = (bytes, id, timestamp, payload) => createHmac('sha256', Buffer.from(bytes)).update(`${id}.${timestamp}.${payload}`, 'utf8').digest('base64');

const wellFormedJson = fc.letrec((tie) => ({
  node: fc.oneof({ maxDepth: 3, depthSize: 'small' }, g.wellFormed, fc.integer(), g.bool, fc.constant(null), fc.array(tie('node'), { maxLength: 3 }), g.dict(tie('node'), { max: 4 })),
})).node;
const event = fc.record({ type: fc.constantFrom('email.sent', 'email.bounced', 'contact.created'), created_at: g.isoDate, data: g.dict(wellFormedJson) });
export const payload = fc.tuple(fc.oneof({ weight: 3, arbitrary: event }, { weight: 1, arbitrary: wellFormedJson }), fc.constantFrom(0, 0, 1, 2), fc.constantFrom('', '', '\n', ' ')).map(([v, indent, pad]) => pad + JSON.stringify(v, null, indent) + pad).filter((s) => s.isWellFormed());
export const messageId = fc.oneof({ weight: 3, arbitrary: g.id.map((i) => `msg_${i}`) }, { weight: 1, arbitrary: g.nonEmpty });
