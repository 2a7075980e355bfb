// Calls that name nothing, which the library refuses locally.
import { fc } from './env.mjs';
import * as g from './gen.mjs';
import { success } from './session.mjs';

const none = fc.constantFrom(undefined, '');
const absent = (keys) => fc.record(Object.fromEntries(keys.map((k) => [k, fc.oneof({ weight: 1, arbitrary: fc.constant('\u0000') }, { weight: 1, arbitrary: fc.constantFrom(undefined, null) }, { weight: 1, arbitrary: fc.constant('') })]))).map((o) => Object.fromEntries(Object.entries(o).filter(([, v]) => v !== '\u0000')));
const withFields = (keys, required, optional = {}) => fc.tuple(absent(keys), g.rec(required, optional), fc.boolean()).map(([a, b, first]) => [first ? { ...a, ...b } : { ...b, ...a }]);
const contactFields = { audienceId: g.id, firstName: g.str, lastName: g.str, unsubscribed: g.bool, properties: g.dict(g.str) };
const pagination = { limit: fc.integer({ min: 1, max: 100 }), after: g.id };
const topics = g.list(fc.record({ id: g.id, subscription: fc.constantFrom('opt_in', 'opt_out') }));
const cases = {
  'contacts.get': withFields(['id', 'email'], {}, { audienceId: g.id }),
  'contacts.remove': withFields(['id', 'email'], {}, { audienceId: g.id }),
  'contacts.update': withFields(['id', 'email'], {}, contactFields),
  'contacts.topics.update': withFields(['id', 'email'], { topics }),
  'contacts.topics.list': withFields(['id', 'email'], {}, pagination),
  'contacts.segments.list': withFields(['contactId', 'email'], {}, pagination),
  'contacts.segments.add': withFields(['contactId', 'email'], { segmentId: g.id }),
  'contacts.segments.remove': withFields(['contactId', 'email'], { segmentId: g.id }),
  'topics.get': fc.oneof(fc.constant([]), none.map((v) => [v]), fc.constant([null])),
  'topics.remove': fc.oneof(fc.constant([]), none.map((v) => [v]), fc.constant([null])),
  'topics.update': withFields(['id'], {}, { name: g.str, description: g.str }),
  'contactProperties.get': fc.oneof(fc.constant([]), none.map((v) => [v]), fc.constant([null])),
  'contactProperties.remove': fc.oneof(fc.constant([]), none.map((v) => [v]), fc.constant([null])),
  'contactProperties.update': withFields(['id'], {}, { fallbackValue: fc.oneof(g.str, g.num, fc.constant(null)) }),
  'suppressions.get': fc.oneof(fc.constant([]), none.map((v) => [v]), fc.constant([null])),
  'suppressions.remove': fc.oneof(fc.constant([]), none.map((v) => [v]), fc.constant([null])),
};
export const names = Object.keys(cases);
export const missing = fc.constantFrom(...names).chain((op) => fc.record({ call: cases[op].map((args) => ({ op, args })), plan: success('emails.get').map((a) => [a]), delay: fc.constant(0), missing: fc.constant(true) }));
