// A real HTTP server on the loopback interface, scripted per call, and calls made through the real fetch.
import { Buffer } from 'node:buffer';
import { createServer } from 'node:http';
import { gzipSync } from 'node:zlib';
import { once } from 'node:events';
import { method, settle } from './call.mjs';
import { check, real, tick } from './env.mjs';
import { materialise } from './material.mjs';
import { passThrough } from './net.mjs';

// What fetch adds of its own.
const ADDED = { host: null, connection: null, accept: '*/*', 'accept-language': '*', 'sec-fetch-mode': 'cors', 'accept-encoding': null, 'content-length': null, 'transfer-encoding': null };
const added = (name, value) => Object.hasOwn(ADDED, name) && (ADDED[name] === null || ADDED[name] === value);
export const FRAMING = ['connection', 'keep-alive', 'transfer-encoding', 'content-length', 'content-encoding', 'date'];
let server;
let port;
export const openConnections = () => new Promise((r) => { server.getConnections((e, n) => r(e ? 0 : n)); });
let script = null; // [{ step, recs }] of the running case

async function listen() {
  if (server) return;
  server = createServer({ maxHeaderSize: 1 << 22 }, (req, res) => { serve(req, res).catch(() => { res.destroy(); }); });
  server.keepAliveTimeout = 600_000;
  server.headersTimeout = 0;
  server.requestTimeout = 0;
  server.listen(0, '127.0.0.1');
  await once(server, 'listening');
  server.unref();
  port = server.address().port;
}
export const origin = () => `http://127.0.0.1:${port}`;

const sleep = (ms) => new Promise((r) => real.setTimeout(r, ms));
async function serve(req, res) {
  const m = /^\/c(\d+)(\/.*)$/.exec(req.url);
  const mine = m && script?.[Number(m[1])];
  if (!mine) { script?.stray.push(`${req.method} ${req.url}`); return res.destroy(); }
  const n = mine.recs.length;
  const rec = { method: req.method, url: `${origin()}${req.url}`, headers: new Headers(), hasBody: 'content-length' in req.headers ? req.headers['content-length'] !== '0' : 'transfer-encoding' in req.headers, bytes: Buffer.alloc(0), complete: false };
  for (let i = 0; i < req.rawHeaders.length; i += 2) if (!added(req.rawHeaders[i].toLowerCase(), req.rawHeaders[i + 1])) rec.headers.append(req.rawHeaders[i], req.rawHeaders[i + 1]);
  mine.recs.push(rec);
  const w = mine.step.wire[n % mine.step.wire.length];
  const d = mine.plan[n] ?? { status: 500, headers: [], body: '{"name":"unexpected","message":"unexpected request"}' };
  if (d.cut === 'on-headers') return req.socket.destroy();
  const parts = [];
  for await (const p of req) parts.push(p);
  rec.bytes = Buffer.concat(parts);
  rec.complete = true;
  if (w.ms) await sleep(w.ms);
  if (d.cut === 'before-response') return req.socket.destroy();
  let body = d.body === undefined || d.body === null ? Buffer.alloc(0) : Buffer.from(d.body);
  const head = d.headers.filter(([k]) => !FRAMING.includes(k.toLowerCase()));
  if (w.gzip && d.cut === undefined) { body = gzipSync(body); head.push(['content-encoding', 'gzip']); }
  if (w.length) head.push(['Content-Length', String(body.length)]);
  // (After Connection: close, fetch cannot tell a missing end of a chunked body from its end.)
  if (w.close && (d.cut === undefined || w.length)) head.push(['Connection', 'close']);
  res.sendDate = false;
  res.writeHead(d.status, d.statusText || undefined, head.flat());
  res.flushHeaders();
  const end = d.cut === undefined ? body.length : Math.floor(d.cut * body.length);
  let at = 0;
  for (const size of w.pieces) {
    if (at >= end) break;
    res.write(body.subarray(at, Math.min(end, at + size)));
    at += size;
    for (let k = 0; k < w.pace; k++) await tick();
  }
  if (at < end) res.write(body.subarray(at, end));
  if (d.cut === undefined) return res.end();
  await tick();
  await sleep(1);
  req.socket.destroySoon?.();
}

// Calls on clients of the real server: one after the other or together. Step: { call, plan, wire, cuts }.
export async function overHttp(lib, { build, mode, steps, key }) {
  await listen();
  const planned = steps.map((s) => ({ step: s, recs: [], plan: s.plan.map((d, n) => (s.cuts?.[n] === undefined ? d : { ...d, cut: s.cuts[n] })) }));
  planned.stray = [];
  script = planned;
  const { Resend } = lib[build];
  const outcomes = [];
  const agents = [];
  passThrough(true);
  const patched = globalThis.setTimeout;
  globalThis.setTimeout = real.setTimeout; // the connection's own timers
  try {
    const begin = (i) => {
      const s = steps[i];
      const client = new Resend(key, { baseUrl: `${origin()}/c${i}` });
      agents[i] = client.userAgent;
      const args = materialise(s.call.args);
      let p;
      try { p = method(client, s.call.op)(...args); } catch (e) { if (e?.constructor?.name === 'Violation') throw e; p = Promise.reject(e); }
      return settle(p, s.call.op);
    };
    if (mode === 'par') outcomes.push(...(await Promise.all(steps.map((_, i) => begin(i)))));
    else for (let i = 0; i < steps.length; i++) outcomes.push(await begin(i));
    await tick();
    await tick();
  } finally {
    passThrough(false);
    globalThis.setTimeout = patched;
    script = null;
  }
  check(planned.stray.length === 0, () => `requests outside the client's base URL: ${planned.stray}`);
  return outcomes.map((o, i) => {
    const v = o.value?.headers;
    if (v && typeof v === 'object') o.value = { ...o.value, headers: Object.fromEntries(Object.entries(v).filter(([k]) => !FRAMING.includes(k))) };
    return { ...o, requests: planned[i].recs, step: steps[i], base: `${origin()}/c${i}`, userAgent: agents[i] };
  });
}
export const root = async () => { await listen(); return origin(); };
