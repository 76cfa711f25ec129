'use strict';
// Drives generated TypeScript producers and consumers: a stand-in transport, scripted handlers, a log of what they saw.
const path = require('path');
const rl = require('readline').createInterface({ input: process.stdin });
const mods = {};
function mod(m) {
  if (mods[m] === undefined) mods[m] = require(path.join(__dirname, 'g_' + m + '.js'));
  return mods[m];
}
let W = null;      // the world of the scenario in work
process.on('unhandledRejection', (e) => { if (W) W.log.push({ op: 'panic', at: 'unhandled rejection: ' + (e && e.message) }); });
process.on('uncaughtException', (e) => { if (W) W.log.push({ op: 'panic', at: 'uncaught: ' + (e && e.message) }); });
const push = (x) => W.log.push(x);
async function settle() { for (let i = 0; i < 6; i += 1) await new Promise((r) => setImmediate(r)); }
const keyof_ = (fields, k) => (k === undefined ? [] : fields.map((f) => (k[f] === undefined ? '-' : k[f])));
const keyobj = (fields, l) => { const o = {}; fields.forEach((f, i) => { if (l[i] !== '-') o[f] = l[i]; }); return o; };

// connections may have names of another shape than c1, c2 ... (cmd.uuids): out_ to what the producer knows, in_ back
const out_ = (n) => (W.cmd.uuids && /^c\d+$/.test(n) ? '00000000-0000-0000-0000-' + (0x1000 + Number(n.slice(1))).toString(16).padStart(12, '0') : n);
const in_ = (n) => { if (!W.cmd.uuids || n === undefined) return n; const m = /^00000000-0000-0000-0000-0{8}(1[0-9a-f]{3})$/.exec(n); return m ? 'c' + (parseInt(m[1], 16) - 0x1000) : '?' + n; };

// ---- what the generated user handlers call ----
function seen(kind, h, ident, filter, tag) {
  const m = W.mod;
  const k1 = (i) => { const k = i.getKey(); return k === undefined ? undefined : k[m.keyFields[0]]; };
  const byKey = (v) => filter.filter((i) => k1(i) === v);
  const byAsg = () => filter.filter((i) => i.getAssigned() !== undefined);
  const s = (l) => l.map(in_).sort();
  push({ op: 'call', k: kind, h, u: ident ? in_(ident.uuid()) : '', tag, key: ident ? keyof_(m.keyFields, ident.getKey()) : [], asg: ident ? keyof_(m.asgFields, ident.getAssigned()) : [],
    all: s(filter.all()), exc: s(filter.except(out_('c1'))), ecl: s(filter.exclude([out_('c1'), out_('c2')])), byk: s(byKey('n1')), bya: s(byAsg()), any: s(filter.filter(() => true)), ecm: s(filter.exclude(['c7', 'c4', 'c2', 'c5', 'c3'].map(out_))) });
  return { byKey, byAsg };
}
globalThis.REC = {
  own(c) { W.ctx = c; },
  // the context of the user is the same one all the time
  ctx(c) { if (c !== W.ctx) push({ op: 'call', k: 'plain', h: 'another context' }); },
  // scope: {consumer?, filter, producer, deferred?}; build(d, to): the answer
  handle(kind, h, tag, script, scope, build) {
    this.ctx(scope.context);
    const d = script === '' ? { o: 'ok', c: '', b: [], k: [], a: [], x: '', d: false, g: false } : JSON.parse(script);
    const { filter, producer } = scope;
    const ident = scope.consumer;
    const { byKey, byAsg } = seen(kind, h, ident, filter, tag);
    if (ident) W.kept[in_(ident.uuid())] = ident;
    const to = (d.b || []).map((b) => {
      switch (b.t) {
        case 'all': return filter.all();
        case 'except': return filter.except(ident ? ident.uuid() : out_(b.l[0]));
        case 'exclude': return filter.exclude(b.l.map(out_));
        case 'keyed': return byKey(b.l[0]);
        case 'asgd': return byAsg();
        case 'none': return [];
        case 'miss': return undefined;
        default: return b.l.map(out_);
      }
    });
    if (ident && d.k.length) ident.key(W.mod.mkKey(keyobj(W.mod.keyFields, d.k[0])), d.k[1]);
    if (ident && d.a.length) ident.assign(W.mod.mkAsg(keyobj(W.mod.asgFields, d.a[0])), d.a[1]);
    if (d.x) producer.disconnect(out_(d.x));
    if (d.d && scope.deferred) scope.deferred(() => push({ op: 'defer', h, tag }));
    if (d.o === 'throw') throw new Error('handler throws');
    const fin = () => { if (d.o === 'fail') throw new Error('handler failed'); return build(d, to); };
    if (!d.g) return Promise.resolve().then(fin);
    const u = ident ? in_(ident.uuid()) : '';
    return new Promise((res) => W.gates.push({ u, h, res })).then(fin);
  },
  cfg(h) { const c = W.cmd.cfg[h]; return c === undefined ? ['', ''] : [c.tag, c.script]; },
  plain(h) { if (W.cmd.plain) push({ op: 'call', k: 'plain', h }); },
  error(error, ident) { push({ op: 'error', k: typeof error.getErrType === 'function' ? error.getErrType() : 'Server', idu: ident ? in_(ident.uuid()) : '' }); },
};

function decode(m, buffer) {
  const r = m.reader();
  const errs = r.chunk(buffer);
  if (errs !== undefined) return [{ m: '?' + errs[0].message, q: 0, f: {} }];
  const out = [];
  for (;;) {
    const x = r.next();
    if (x === undefined) break;
    let o = x.msg; const p = [];
    while (!m.names[p.join('.')]) { const k = Object.keys(o)[0]; if (k === undefined) break; p.push(k); o = o[k]; }
    const f = {};
    (m.names[p.join('.')] || []).forEach((n) => { if (o[n] !== undefined) f[n] = o[n]; });
    out.push({ m: p.join('.'), q: x.header.sequence, f });
  }
  if (r.len() !== 0) out.push({ m: '?rest', q: 0, f: {} });
  return out;
}
// A fingerprint that differs from the right one in a certain way.
function spoil(h, v) {
  const [n, how] = v.substring(1).split('!');
  const [own, other] = n === 'protocol' ? [h.PROTOCOL, h.WORKFLOW] : [h.WORKFLOW, h.PROTOCOL];
  const flip = (c) => (c === '0' ? '1' : '0');
  const l = own.length;
  switch (how) {
    case undefined: return own;
    case 'lower': return own.toLowerCase();
    case 'half': return own.substring(0, l >> 1);
    case 'empty': return '';
    case 'twice': return own + own;
    case 'tail': return own + '0';
    case 'cut': return own.substring(1);
    case 'swap': return other;
    case 'last': return own.substring(0, l - 1) + flip(own[l - 1]);
    case 'first': return flip(own[0]) + own.substring(1);
    case 'pad': return own + ' ';
    default: return 'bad';
  }
}
function bytes(m, t) {
  const f = {};
  Object.keys(t.f).forEach((k) => { f[k] = /^@/.test(t.f[k]) ? spoil(m.hash(), t.f[k]) : t.f[k]; });
  const b = Buffer.from(m.enc(t.m, f, t.q));
  const h = b.length >> 1;
  switch (t.t) {
    case 'M': return b;
    case 'A': return b.subarray(0, h);
    case 'B': return b.subarray(h);
    case 'sig': b[4] ^= 0x5a; return b;
    case 'id': b.writeUInt32LE(0x7fffffff, 0); return b;
    case 'body': b[29] = 200; return b;      // the declared size of the first property exceeds the body
    default: throw new Error('token ' + t.t);
  }
}

// ---- producer scenarios ----
function begin(cmd) {
  const m = mod(cmd.flow);
  W = { mod: m, cmd, log: [], kept: {}, gates: [], held: {}, fault: new Set(), up: new Set() };
  const server = m.server({
    send(buffer, id) {
      const uuid = in_(id);
      decode(m, Buffer.from(buffer)).forEach((x) => {
        const r = { op: 'send', u: uuid === undefined ? '*' : uuid, m: x.m, q: x.q, f: x.f };
        if (cmd.live) r.hex = Buffer.from(buffer).toString('hex');
        push(r);
      });
      if (W.held[uuid] !== undefined) return new Promise((res) => W.held[uuid].push(res));
      if (W.fault.has(uuid) || !W.up.has(uuid)) return Promise.reject(new Error('no way to send'));
      return Promise.resolve();
    },
    disconnect(id) { push({ op: 'disc', u: in_(id) }); return Promise.resolve(); },
    listen() { return Promise.resolve(); },
    shutdown() { push({ op: 'srvdown' }); return Promise.resolve(); },
  });
  return { m, ev: server.getEvents(), p: m.producer(server, cmd.ids, cmd.errs) };
}
function stimulus({ m, ev, p }, x) {
  switch (x.t) {
    case 'ready': ev.ready.emit(); break;
    case 'connect': W.up.add(x.u); ev.connected.emit(out_(x.u)); break;
    case 'disconnect': W.up.delete(x.u); ev.disconnected.emit(out_(x.u)); break;
    case 'recv': case 'raw': {
      const b = x.t === 'raw' ? Buffer.from(x.hex, 'hex') : Buffer.concat(x.c.map((t) => bytes(m, t)));
      ev.received.emit({ uuid: out_(x.u), buffer: x.v ? b : b.buffer.slice(b.byteOffset, b.byteOffset + b.byteLength) });
      break;
    }
    case 'event': m.event(p, x.e, x.tag, x.script); break;
    case 'ident': {
      const i = W.kept[x.u];
      if (i === undefined) break;
      if (x.k === 'key') i.key(m.mkKey(keyobj(m.keyFields, x.key)), x.ow); else i.assign(m.mkAsg(keyobj(m.asgFields, x.key)), x.ow);
      break;
    }
    case 'fault': W.fault = new Set(x.l); break;
    case 'hold': if (W.held[x.u] === undefined) W.held[x.u] = []; break;
    case 'release': { const l = W.held[x.u] || []; delete W.held[x.u]; l.forEach((r) => r()); break; }
    case 'go': { const i = W.gates.findIndex((g) => g.u === x.u && g.h === x.h); if (i >= 0) W.gates.splice(i, 1)[0].res(); break; }
    default: throw new Error('stimulus ' + x.t);
  }
}
async function producer(cmd) {
  const P = begin(cmd);
  for (const burst of cmd.steps) {
    for (const x of burst) { push({ op: 'stim', s: x.n }); stimulus(P, x); }
    await settle();
    push({ op: 'settled' });
  }
  return { trace: W.log };
}
// stimuli one by one, each answered by what came of it
let L;
async function live_producer(cmd) { L = begin(cmd); await settle(); return { out: W.log.splice(0) }; }
async function stim(cmd) { stimulus(L, cmd.x); await settle(); return { out: W.log.splice(0) }; }

const RUN = { producer, live_producer, stim };
module.exports = { RUN, push, settle, decode, bytes, mod, world: (w) => { W = w; return w; }, keyobj };
try { require('./consumer.js'); } catch (e) { if (e.code !== 'MODULE_NOT_FOUND') throw e; }
let chain = Promise.resolve();
rl.on('line', (l) => {
  chain = chain.then(async () => {
    let o;
    try { const c = JSON.parse(l); o = await RUN[c.what](c); } catch (e) { o = { panic: String(e && e.stack) }; }
    process.stdout.write(JSON.stringify(o) + '\n');
  });
});
