'use strict';
// Consumer scenarios: a stand-in client, calls made by the application, what subscribers and callers were given.
const { RUN, push, settle, decode, mod, world, keyobj } = module.parent ? module.parent.exports : require('./main.js');
const NOBODY = 0xf0000000;
const turn = () => new Promise((r) => setImmediate(r));
function begin(cmd) {
  const m = mod('c_' + cmd.flow);
  const log = [];
  const W = world({ mod: m, cmd, log, kept: {}, gates: [], held: {}, fault: new Set(), up: new Set() });
  const sent = {}, owner = {};
  let up = false, fault = false, gone = false, half = 0;
  const client = m.client({
    send(buffer) {
      if (!up || fault || gone) return new Error('no way to send');
      decode(m, Buffer.from(buffer)).forEach((x) => {
        const who = x.m === m.keyName ? 'key' : x.m.endsWith('.HashRequest') ? 'hash' : 'call:' + (x.f.tag === undefined ? '' : x.f.tag);
        const own = x.q !== 0 && owner[x.q] === undefined;
        owner[x.q] = who; sent[who] = x.q;
        const r = { op: 'send', m: x.m, who, q: own ? 'own' : 'used', f: x.f };
        if (cmd.live) { r.hex = Buffer.from(buffer).toString('hex'); r.seq = x.q; }
        push(r);
      });
      return undefined;
    },
    destroy() { gone = true; push({ op: 'ctl' }); return Promise.resolve(); },
  });
  const ev = client.getEvents();
  const c = m.consumer(client, keyobj(m.keyFields, cmd.key), {
    connected: () => { push({ op: 'ev', k: 'connected', x: '' }); act('connected'); },
    ready: (uuid) => { push({ op: 'ev', k: 'ready', x: uuid === c.uuid ? uuid : uuid + ' but ' + c.uuid }); act('ready'); },
    disconnected: () => { let x = ''; try { x = c.uuid; } catch (e) { } push({ op: 'ev', k: 'disconnected', x }); act('disconnected'); },
    error: () => { push({ op: 'ev', k: 'error', x: '' }); act('error'); },
    broadcast: (name, msg) => { push({ op: 'bcast', m: msg instanceof m.classes[name] ? name : '?' + name, tag: msg.tag }); act('bcast'); },
  });
  // what a subscriber does, when it is told of k the next time
  const acts = {};
  function act(k) {
    const x = acts[k];
    if (x === undefined) return;
    delete acts[k];
    if (x.a === 'call') stimulus(Object.assign({}, x, { t: 'call' }), []);
    else if (!gone) c.destroy();
  }
  const objs = {};
  function bytes(t) {
    let q = t.ref === '0' ? 0 : sent[t.ref] === undefined ? NOBODY : sent[t.ref];
    if (t.t === 'A') half = q;
    if (t.t === 'B') q = half;
    const who = q === 0 ? '0' : owner[q] === undefined ? 'none' : owner[q];
    const b = Buffer.from(m.enc(t.m, t.f, q));
    const h = b.length >> 1;
    switch (t.t) {
      case 'A': return [b.subarray(0, h), who];
      case 'B': return [b.subarray(h), who];
      case 'sig': b[4] ^= 0x5a; return [b, who];
      case 'id': b.writeUInt32LE(0x7fffffff, 0); return [b, who];
      case 'body': b[29] = 200; return [b, who];
      default: return [b, who];
    }
  }
  function stimulus(x, toks) {
    switch (x.t) {
      case 'connect': up = true; ev.connected.emit(undefined); break;
      case 'disconnect': up = false; ev.disconnected.emit(undefined); break;
      case 'error': ev.error.emit(new Error('client')); break;
      case 'msg': case 'raw': {
        const b = x.t === 'raw' ? Buffer.from(x.hex, 'hex') : Buffer.concat(toks.map((t) => t[0]));
        ev.data.emit(b.buffer.slice(b.byteOffset, b.byteOffset + b.byteLength));
        break;
      }
      case 'call': {
        if (objs[x.tag] === undefined) objs[x.tag] = { q: m.call(c, x.m, x.tag, x.script || '', (k) => { objs[x.tag].h += k; }), h: '' };
        const o = objs[x.tag];
        const take = () => { const h = o.h; o.h = ''; return h; };
        o.q.send().then((r) => push({ op: 'res', n: x.n, k: take(), m: r === undefined ? '' : m.nameOf(r), tag: r === undefined ? '' : r.tag }),
          (e) => push({ op: 'res', n: x.n, k: '!' + take(), m: e instanceof Error ? '' : 'not an error', tag: '' }));
        break;
      }
      case 'drop': if (objs[x.of] !== undefined) objs[x.of].q.destroy(); break;
      case 'fault': fault = x.on; break;
      case 'on': acts[x.k] = x; break;
      case 'destroy': c.destroy(); break;
      default: throw new Error('stimulus ' + x.t);
    }
  }
  // many calls, one after the other, each answered at once: those that got their own answer are counted
  async function mass(x) {
    let ok = 0;
    for (let i = 0; i < x.count; i += 1) {
      const tag = 'm' + i, back = 'r' + i, at = log.length;
      const found = [];
      const call = m.call(c, x.m, tag, '', (k) => { found.push(k); }).send();
      const who = 'call:' + tag, q = sent[who];
      if (q === undefined) { push({ op: 'mass not sent', at: i }); break; }
      const b = Buffer.from(m.enc(x.ans, { tag: back }, q));
      ev.data.emit(b.buffer.slice(b.byteOffset, b.byteOffset + b.byteLength));
      let late;
      const r = await Promise.race([call.catch((e) => e), new Promise((r) => { let n = 0; const w = () => { n += 1; if (n > 20) r('late'); else late = setImmediate(w); }; late = setImmediate(w); })]);
      clearImmediate(late);
      const s = log[at];
      const one = log.length === at + 1 && s.op === 'send' && s.who === who && s.m === x.m && s.q === 'own';
      const res = found.join() === x.k && r !== undefined && r !== 'late' && !(r instanceof Error) && m.nameOf(r) === x.ans && r.tag === back;
      if (!one || !res) { push({ op: 'mass not its own answer', at: i }); break; }
      log.length = at; delete owner[q]; delete sent[who];
      ok += 1;
    }
    await settle();
    push({ op: 'mass', n: x.n, ok });
  }
  return { bytes, stimulus, mass, log };
}
const wire = (x) => ['msg', 'raw', 'connect', 'disconnect', 'error'].includes(x.t);
RUN.consumer = async function consumer(cmd) {
  const { bytes, stimulus, mass, log } = begin(cmd);
  for (const burst of cmd.steps) {
    for (const x of burst) {
      if (wire(x)) await turn();
      const toks = x.t === 'msg' ? x.c.map(bytes) : [];
      push({ op: 'stim', s: x.n, refs: toks.map((t) => t[1]) });
      if (x.t === 'mass') await mass(x); else stimulus(x, toks);
    }
    await settle();
    push({ op: 'settled' });
  }
  return { trace: log };
};
// bursts of stimuli one by one, each answered by what came of it
let L;
RUN.live_consumer = async function live(cmd) { L = begin(cmd); await settle(); return { out: L.log.splice(0) }; };
RUN.burst = async function burst(cmd) {
  for (const x of cmd.l) {
    if (wire(x)) await turn();
    L.stimulus(x, []);
  }
  await settle();
  return { out: L.log.splice(0) };
};
