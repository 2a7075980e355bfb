// Structured generator of raw MIME messages that knows what they contain.
import { Buffer } from 'node:buffer';
import { fc } from './env.mjs';
import { hugeBytes } from './gen.mjs';

const CRLF = '\r\n';
const bin = (s) => Buffer.from(s, 'latin1');

// --- charsets: encoders obtained by inverting the platform decoders --------------------------------
const SINGLE = ['iso-8859-1', 'iso-8859-2', 'iso-8859-5', 'iso-8859-7', 'iso-8859-15', 'windows-1250', 'windows-1251', 'windows-1252', 'koi8-r', 'koi8-u', 'macintosh', 'ibm866'];
const MULTI = ['shift_jis', 'euc-jp', 'gb18030', 'gbk', 'big5', 'euc-kr'];
const tables = new Map();
function table(charset) {
  if (tables.has(charset)) return tables.get(charset);
  const map = new Map();
  const dec = new TextDecoder(charset, { fatal: true });
  for (let b = 0x80; b < 0x100; b++) { try { const s = dec.decode(Uint8Array.of(b)); if (s.length === 1 && s.codePointAt(0) > 0x9f) map.set(s, [b]); } catch { /* not assigned */ } }
  if (MULTI.includes(charset)) {
    for (let a = 0xa1; a < 0xea; a += 3) for (let b = 0xa1; b < 0xfe; b += 5) {
      try { const s = dec.decode(Uint8Array.of(a, b)); if ([...s].length === 1 && !map.has(s) && s !== '\ufffd') map.set(s, [a, b]); } catch { /* not assigned */ }
    }
  }
  tables.set(charset, map);
  return map;
}
export function encodeText(charset, text) {
  if (/^utf-?8$/i.test(charset) || charset === '') return Buffer.from(text, 'utf8');
  if (charset === 'us-ascii') return Buffer.from(text, 'latin1');
  const t = table(charset);
  return Buffer.concat([...text].map((c) => (c.codePointAt(0) < 0x80 ? Buffer.of(c.codePointAt(0)) : Buffer.from(t.get(c)))));
}
const charOf = (charset) => {
  const ascii = fc.constantFrom(...'abcXYZ019 .,;:!?()<>&"\'/\\@#%=+-_*~'.split(''));
  if (charset === 'us-ascii') return ascii;
  if (/^utf-?8$/i.test(charset) || charset === '') return fc.oneof({ weight: 3, arbitrary: ascii }, { weight: 2, arbitrary: fc.constantFrom('é', 'ü', 'ß', '€', '—', '日', '本', '😀', 'Ж', 'א', '\u00a0', 'ﬁ') });
  return fc.oneof({ weight: 2, arbitrary: ascii }, { weight: 3, arbitrary: fc.constantFrom(...table(charset).keys()) });
};
const charset = fc.oneof({ weight: 3, arbitrary: fc.constantFrom('utf-8', 'UTF-8') }, { weight: 2, arbitrary: fc.constantFrom('us-ascii', '') }, { weight: 4, arbitrary: fc.constantFrom(...SINGLE) }, { weight: 2, arbitrary: fc.constantFrom(...MULTI) });
// Lines of text in a charset; '' means no charset declared (utf-8 is what a reader assumes).
const textIn = charset.chain((cs) => fc.tuple(fc.constant(cs), fc.array(fc.array(charOf(cs), { maxLength: 24 }).map((c) => c.join('')), { minLength: 1, maxLength: 5 })))
  .map(([cs, lines]) => ({ charset: cs, text: lines.map((l) => l.replace(/^-+/, '').trimEnd()).join('\n').trim() || 'x' }));
const bodyText = fc.tuple(textIn, fc.constantFrom('', '', '', '', '\n', '\n\n\n')).map(([b, end]) => ({ ...b, text: b.text + end }));

// --- transfer encodings ------------------------------------------------------------------------------
export function encodeBody(bytes, cte) {
  if (cte === 'base64') return bin(bytes.toString('base64').replace(/.{76}/g, `$&${CRLF}`) + CRLF);
  if (cte === 'quoted-printable') {
    const lines = [];
    let line = '';
    for (let i = 0; i < bytes.length; i++) {
      const b = bytes[i];
      if (b === 0x0d && bytes[i + 1] === 0x0a) { lines.push(line); line = ''; i++; continue; }
      const plain = b > 0x20 && b < 0x7f && b !== 0x3d;
      const t = plain || (b === 0x20 && i + 1 < bytes.length && bytes[i + 1] !== 0x0d) ? String.fromCharCode(b) : `=${b.toString(16).toUpperCase().padStart(2, '0')}`;
      if (line.length + t.length > 75) { lines.push(`${line}=`); line = ''; }
      line += t;
    }
    lines.push(line);
    return bin(lines.join(CRLF) + CRLF);
  }
  return Buffer.concat([bytes, bin(CRLF)]);
}

// --- parts -------------------------------------------------------------------------------------------
const textCte = fc.constantFrom('8bit', '8bit', 'quoted-printable', 'base64', 'none', 'QUOTED-PRINTABLE', 'Base64', 'binary');
const bodyPart = (kind) => fc.record({ kind: fc.constant(kind), body: bodyText, cte: textCte, disposition: fc.constantFrom('', '', 'inline') });
const fileName = fc.oneof(
  fc.constantFrom('a.txt', 'invoice.pdf', 'photo 1.JPG', 'data.bin', 'noext', '.hidden', 'x.tar.gz', 'A.TXT', "it's.txt", `${'long name '.repeat(13)}end.txt`, `${'n'.repeat(260)}.pdf`),
  fc.constantFrom('résumé.doc', '名簿.xlsx', 'Ünï.png', 'счёт.pdf', '😀.gif'),
);
const cid = fc.constantFrom('logo', 'logo@example.com', 'img.1@x', '001', 'ABC-def_9@h.co', 'a$b@c', 'image001.png@01D9A0.5B8C7D40', 'part1.abc123@mail.local', 'ii_lxyz0abc0@google.com', 'a@localhost', 'a%40b@x', '100%', 'x%2Fy%3D@h.co', '%6c%6f', 'a+b@x', 'A&amp;b@x', '3f2504e0-4f89-11d3-9a0c-0305e82c3301', `${'c'.repeat(90)}@h.test`);
const fileBytes = fc.oneof({ weight: 30, arbitrary: fc.uint8Array({ maxLength: 60 }) }, { weight: 1, arbitrary: hugeBytes }, { weight: 30, arbitrary: fc.uint8Array({ minLength: 1, maxLength: 30 }).map((u) => Uint8Array.from({ length: 3000 }, (_, i) => u[i % u.length] ^ (i & 255))) }, { weight: 15, arbitrary: fc.constantFrom([0xff, 0xd8, 0xff, 0xe0, 0, 0x10], [0xef, 0xbb, 0xbf, 0x61]).map((a) => Uint8Array.from(a)) });
const mimeType = fc.constantFrom('application/pdf', 'image/png', 'image/jpeg', 'application/octet-stream', 'text/csv', 'application/zip', 'application/vnd.openxmlformats-officedocument.wordprocessingml.document', 'audio/mpeg', 'text/x-python', 'application/json', 'application/pgp-signature', 'application/pkcs7-signature', 'application/pgp-keys', 'application/ms-tnef', 'text/vcard', 'image/svg+xml', 'application/x-msdownload');
const attachment = fc.record({
  kind: fc.constant('attachment'), bytes: fileBytes, type: mimeType,
  name: fc.option(fileName, { nil: null, freq: 6 }), nameStyle: fc.constantFrom('rfc2231', 'rfc2047', 'ctname'),
  cid: fc.option(cid, { nil: null, freq: 2 }), brackets: fc.constantFrom(true, true, false), disposition: fc.constantFrom('attachment', 'attachment', 'inline'),
});
const textAttachment = fc.record({ kind: fc.constant('textfile'), body: textIn, subtype: fc.constantFrom('plain', 'html'), name: fc.option(fileName, { nil: null, freq: 6 }), cid: fc.constant(null) });

// Calendars: text in UTF-8.
const calendar = fc.record({ kind: fc.constant('attachment'), type: fc.constantFrom('text/calendar', 'application/ics'), calendar: fc.constant(true), lines: fc.array(fc.constantFrom('BEGIN:VCALENDAR', 'SUMMARY:Zoë', 'DTSTART:20260101T000000Z', 'DESCRIPTION:a\\nb', '', 'END:VCALENDAR'), { minLength: 1, maxLength: 6 }), eol: fc.constantFrom('\r\n', '\n'), end: fc.constantFrom('', '\n', '\r\n', '\r\n\r\n'),
  name: fc.option(fc.constantFrom('invite.ics', 'Ünï.ics'), { nil: null, freq: 3 }), nameStyle: fc.constantFrom('rfc2231', 'rfc2047', 'ctname'), cid: fc.constant(null), brackets: fc.constant(true), disposition: fc.constantFrom('attachment', 'inline') })
  .map(({ lines, eol, end, ...c }) => ({ ...c, bytes: new Uint8Array(Buffer.from(lines.join(eol) + end)) }));

// Structures: at most one text and one html body, so that what the message says is unambiguous.
const leafText = fc.oneof(bodyPart('plain'), bodyPart('html'));
const alternative = fc.tuple(bodyPart('plain'), bodyPart('html'), fc.nat(7)).map(([a, b, same]) => ({ kind: 'multipart', sub: 'alternative', parts: [a, same === 0 ? { ...b, body: a.body } : b] }));
const related = (inner) => fc.tuple(inner, fc.array(attachment, { minLength: 1, maxLength: 2 })).map(([a, b]) => ({ kind: 'multipart', sub: 'related', parts: [a, ...b] }));
const altRelated = fc.tuple(bodyPart('plain'), related(bodyPart('html'))).map(([a, b]) => ({ kind: 'multipart', sub: 'alternative', parts: [a, b] }));
const mixed = (inner) => fc.tuple(inner, fc.array(fc.oneof({ weight: 8, arbitrary: attachment }, { weight: 2, arbitrary: textAttachment }, { weight: 1, arbitrary: calendar }), { maxLength: 4 }), fc.boolean()).map(([a, b, before]) => ({ kind: 'multipart', sub: 'mixed', parts: before && b.length ? [b[0], a, ...b.slice(1)] : [a, ...b] }));
const content = fc.oneof(leafText, alternative, related(bodyPart('html')), altRelated);
export const message = fc.record({
  root: fc.oneof({ weight: 2, arbitrary: content }, { weight: 3, arbitrary: mixed(content) }, { weight: 1, arbitrary: fc.tuple(mixed(content), fc.array(attachment, { minLength: 1, maxLength: 2 })).map(([m, x]) => ({ kind: 'multipart', sub: 'mixed', parts: [m, ...x] })) }, { weight: 1, arbitrary: attachment }),
  headers: fc.uniqueArray(fc.constantFrom('Subject: Original subject', 'Subject: =?utf-8?B?w6l0w6k=?=', 'MIME-Version: 1.0', 'X-Long: a\r\n folded', 'Message-ID: <m@x>', 'Date: Mon, 01 Jan 2024 00:00:00 +0000'), { maxLength: 4 }),
  eol: fc.constantFrom('\r\n', '\r\n', '\n'),
  preamble: fc.boolean(),
});

function param(name, value) {
  return /^[\x20-\x7e]*$/.test(value) ? `${name}="${value}"` : `${name}*=utf-8''${encodeURIComponent(value).replace(/'/g, '%27')}`;
}
const word = (v) => (/^[\x20-\x7e]*$/.test(v) ? v : `=?utf-8?B?${Buffer.from(v).toString('base64')}?=`);

let counter;
function part(p) {
  if (p.kind === 'multipart') {
    const boundary = `=_b${counter++}_x`;
    const pieces = p.parts.map((x) => { const { head, body } = part(x); return Buffer.concat([bin(`--${boundary}${CRLF}`), bin(head.join(CRLF) + CRLF + CRLF), body]); });
    return { head: [`Content-Type: multipart/${p.sub}; boundary="${boundary}"`], body: Buffer.concat([...pieces, bin(`--${boundary}--${CRLF}`)]) };
  }
  if (p.kind === 'plain' || p.kind === 'html') {
    const bytes = encodeText(p.body.charset, p.body.text.replaceAll('\n', CRLF));
    const head = [`Content-Type: text/${p.kind}${p.body.charset ? `; charset=${p.body.charset}` : ''}`];
    if (p.cte !== 'none') head.push(`Content-Transfer-Encoding: ${p.cte}`);
    if (p.disposition) head.push(`Content-Disposition: ${p.disposition}`);
    return { head, body: encodeBody(bytes, p.cte.toLowerCase()) };
  }
  if (p.kind === 'textfile') {
    const bytes = encodeText(p.body.charset, p.body.text);
    return { head: [`Content-Type: text/${p.subtype}${p.body.charset ? `; charset=${p.body.charset}` : ''}`, 'Content-Transfer-Encoding: base64', `Content-Disposition: attachment${p.name === null ? '' : `; ${param('filename', p.name)}`}`], body: encodeBody(bytes, 'base64') };
  }
  const head = [`Content-Type: ${p.type}${p.name !== null && p.nameStyle === 'ctname' ? `; name="${word(p.name)}"` : ''}`, 'Content-Transfer-Encoding: base64',
    `Content-Disposition: ${p.disposition}${p.name !== null && p.nameStyle === 'rfc2231' ? `; ${param('filename', p.name)}` : ''}${p.name !== null && p.nameStyle === 'rfc2047' ? `; filename="${word(p.name)}"` : ''}`];
  if (p.cid !== null) head.push(`Content-ID: ${p.brackets ? `<${p.cid}>` : p.cid}`);
  return { head, body: encodeBody(Buffer.from(p.bytes), 'base64') };
}

// Raw bytes of a message, and what a reader finds in it.
export function buildMessage(m) {
  counter = 0;
  const { head, body } = part(m.root);
  const top = ['From: Sender <s@x.test>', 'To: r@x.test', ...m.headers, ...head].join(CRLF);
  const lead = m.preamble && m.root.kind === 'multipart' ? bin(`This is a multi-part message.${CRLF}${CRLF}`) : Buffer.alloc(0);
  let raw = Buffer.concat([bin(`${top}${CRLF}${CRLF}`), lead, body]);
  if (m.eol === '\n') raw = bin(raw.toString('latin1').replaceAll(CRLF, '\n'));
  return raw;
}

export function contents(m) {
  const out = { plain: undefined, html: undefined, attachments: [] };
  (function walk(p) {
    if (p.kind === 'multipart') return p.parts.forEach(walk);
    if (p.kind === 'plain' || p.kind === 'html') { out[p.kind] = p.body.text; return undefined; }
    if (p.kind === 'textfile') { out.attachments.push({ filename: p.name ?? undefined, bytes: encodeText(p.body.charset, p.body.text), type: `text/${p.subtype}`, cid: undefined }); return undefined; }
    out.attachments.push({ filename: p.name ?? undefined, bytes: Buffer.from(p.bytes), type: p.type, cid: p.cid ?? undefined, calendar: p.calendar });
    return undefined;
  })(m.root);
  return out;
}
