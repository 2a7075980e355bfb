// A real HTTP server on the loopback interface, and a way to let the library's fetch reach it.
import { Buffer } from 'node:buffer';
import { createServer } from 'node:http';
import { real } from './env.mjs';
import { Net, setNet } from './net.mjs';

export async function startServer() {
  const seen = [];
  let answer = () => ({ status: 200, headers: [['content-type', 'application/json']], body: '{}' });
  const server = createServer({ maxHeaderSize: 16 * 1024 * 1024, keepAliveTimeout: 600_000, requestTimeout: 0 }, (req, res) => {
    const chunks = [];
    req.on('data', (c) => chunks.push(c));
    req.on('end', async () => {
      const rec = { method: req.method, url: req.url, raw: req.rawHeaders, headers: new Headers(), bytes: Buffer.concat(chunks) };
      for (let i = 0; i < req.rawHeaders.length; i += 2) rec.headers.append(req.rawHeaders[i], req.rawHeaders[i + 1]);
      seen.push(rec);
      const a = await answer(rec);
      res.writeHead(a.status, a.headers.flat());
      res.end(a.body);
    });
  });
  await new Promise((r) => server.listen(0, '127.0.0.1', r));
  return {
    base: `http://127.0.0.1:${server.address().port}`, seen,
    answerWith(fn) { answer = fn; },
    // Requests of the library go out through the platform's fetch.
    open() { const net = new Net((rec) => real.fetch(rec.raw.input, rec.raw.init)); setNet(net); return net; },
    close() { return new Promise((r) => { server.closeAllConnections(); server.close(r); }); },
  };
}
let shared;
export async function server() {
  shared ??= await startServer();
  shared.seen.length = 0;
  return shared;
}
