// The fetch boundary. installFetch() must run before the library is loaded, so that a library
// which captures fetch at load time is still observed.
import { Buffer } from 'node:buffer';
import { AsyncLocalStorage } from 'node:async_hooks';
import { real, tick } from './env.mjs';

export const callContext = new AsyncLocalStorage();
let current = null;

export class Net {
  constructor(respond) {
    this.requests = [];
    this.respond = respond;
  }
  async settled() {
    await Promise.all(this.requests.map((r) => r.ready));
  }
}

export function setNet(net) {
  current = net;
}

function record(input, init) {
  const rec = { raw: { input, init }, call: callContext.getStore() };
  const needsDuplex = init?.body && typeof init.body === 'object' && typeof init.body.getReader === 'function';
  const req = new Request(input, needsDuplex ? { ...init, duplex: 'half' } : init);
  rec.method = req.method;
  rec.url = req.url;
  rec.headers = new Headers(req.headers);
  rec.signal = req.signal;
  rec.hasBody = req.body !== null;
  rec.ready = (async () => {
    if (!rec.hasBody) return;
    rec.bytes = Buffer.from(await req.arrayBuffer());
  })();
  return rec;
}

// A request given up by its sender fails, and so does the body of its response.
async function abortable(answer, signal) {
  const given = new Promise((_, reject) => { if (signal.aborted) reject(signal.reason); else signal.addEventListener('abort', () => reject(signal.reason), { once: true }); });
  given.catch(() => {});
  const r = await Promise.race([answer, given]);
  if (!r.body) return r;
  const reader = r.body.getReader();
  const body = new ReadableStream({
    async pull(c) {
      try {
        const { done, value } = await Promise.race([reader.read(), given]);
        if (done) c.close(); else c.enqueue(value);
      } catch (e) { c.error(e); }
    },
  });
  return new Response(body, { status: r.status, statusText: r.statusText, headers: r.headers });
}

let direct = false;
export const passThrough = (on) => { direct = on; };

async function stubFetch(input, init) {
  if (direct) return real.fetch(input, init);
  const net = current;
  if (!net) throw new Error('harness: fetch called outside a case');
  let rec;
  try {
    rec = record(input, init);
  } catch (error) {
    net.requests.push({ invalid: error, raw: { input, init }, ready: Promise.resolve(), call: callContext.getStore(), index: net.requests.length });
    throw error;
  }
  rec.index = net.requests.length;
  net.requests.push(rec);
  await rec.ready;
  if (!init?.signal && !(input instanceof Request)) return net.respond(rec);
  return abortable(net.respond(rec), rec.signal);
}

let fired = 0;
export function installFetch() {
  globalThis.fetch = stubFetch;
  // Long delays (a back-off of a retrying library) run at once, so that what they would do is seen.
  globalThis.setTimeout = (fn, ms, ...args) => {
    if (ms >= 2) return real.setTimeout((...a) => { fired++; return fn(...a); }, 1, ...args);
    return real.setTimeout(fn, ms, ...args);
  };
  AbortSignal.timeout = (ms) => {
    const c = new AbortController();
    real.setTimeout(() => c.abort(new DOMException('The operation was aborted due to timeout', 'TimeoutError')), Math.min(ms, 1)).unref();
    return c.signal;
  };
}
// How many long delays have run to their end.
export const delaysOver = () => fired;

// --- response descriptors: plain data turned into Response objects or failures -------------
// {status, headers: [[k,v]], body: string|Uint8Array|null}      ordinary response
// {status, headers, break: string, after: string}               body stream errors after some bytes
// {throw: {kind, message}}                                      fetch itself rejects
// {..., slow: 'head' | 'body'}                                  nothing, or only the headers, arrive before every timer has run
// {..., trickle: n}                                             the body arrives in two parts, n scheduler turns apart
// While a list is set here, what becomes of each response body is noted in it: 'open', 'read', 'failed' or 'cancelled'.
let bodies = null;
export const watchBodies = (list) => { bodies = list; };
function watched(body, d) {
  const note = { status: d.status, url: d.url, state: 'open' };
  bodies.push(note);
  const reader = (body instanceof ReadableStream ? body : new Response(body).body).getReader();
  return new ReadableStream({
    async pull(c) {
      try {
        const { done, value } = await reader.read();
        if (done) { note.state = 'read'; c.close(); } else c.enqueue(value);
      } catch (e) { note.state = 'failed'; c.error(e); }
    },
    cancel(why) { note.state = 'cancelled'; return reader.cancel(why); },
  }, { highWaterMark: 0 });
}
// Longer than any timer of the code under test runs here.
export const longWait = () => new Promise((r) => real.setTimeout(r, 8));
export function makeResponse(d) {
  if (d.throw) throw makeError(d.throw);
  const nullBody = d.status === 204 || d.status === 205 || d.status === 304;
  let body = nullBody ? null : typeof d.body === 'string' ? new TextEncoder().encode(d.body) : d.body;
  if (d.break !== undefined && !nullBody) {
    let sent = false;
    body = new ReadableStream({
      pull(c) {
        if (!sent && d.after) { sent = true; c.enqueue(new TextEncoder().encode(d.after)); return; }
        c.error(makeError(d.break));
      },
    });
  }
  if (d.slow === 'body' && body && !(body instanceof ReadableStream)) {
    let part = body;
    body = new ReadableStream({ async pull(c) { await longWait(); if (part?.length) c.enqueue(part); part = null; c.close(); } });
  } else if (d.trickle !== undefined && body && !(body instanceof ReadableStream)) {
    const parts = [body.slice(0, body.length >> 1), body.slice(body.length >> 1)].filter((p) => p.length > 0);
    body = new ReadableStream({
      async pull(c) {
        for (let k = 0; k < d.trickle; k++) await tick();
        const part = parts.shift();
        if (part) c.enqueue(part); else c.close();
      },
    });
  }
  if (bodies && body && (body instanceof ReadableStream || body.length > 0)) body = watched(body, d);
  return new Response(body, { status: d.status, statusText: d.statusText ?? '', headers: d.headers ?? [] });
}

export function makeError(d) {
  switch (d.kind) {
    case 'type': return new TypeError(d.message);
    case 'syntax': return new SyntaxError(d.message);
    case 'abort': return new DOMException(d.message, 'AbortError');
    case 'timeout': return new DOMException(d.message, 'TimeoutError');
    case 'code': return Object.assign(new Error(d.message), { code: d.code ?? 'ECONNRESET', cause: new Error('socket') });
    case 'cause': return new TypeError(d.message, { cause: Object.assign(new Error(`connect ${d.code}`), { code: d.code, errno: -1, syscall: 'connect' }) });
    case 'aggregate': return new TypeError(d.message, { cause: Object.assign(new AggregateError([Object.assign(new Error(d.code), { code: d.code })], ''), { code: d.code }) });
    case 'string': return d.message;
    case 'undefined': return undefined;
    case 'null': return null;
    case 'object': return { message: d.message };
    default: return new Error(d.message);
  }
}

export const ok = (value, headers = [['content-type', 'application/json']], status = 200) => ({ status, headers, body: JSON.stringify(value) });

export function headersOf(d) {
  return Object.fromEntries(new Headers(d.headers ?? []).entries());
}
