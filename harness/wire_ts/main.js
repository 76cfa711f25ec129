'use strict';
const rl = require('readline').createInterface({ input: process.stdin });
const path = require('path');
const mods = {};
function mod(m) {
  if (mods[m] === undefined) {
    try { mods[m] = { m: require(path.join(__dirname, 'g_' + m + '.js')).mod }; } catch (e) { mods[m] = { e }; }
  }
  if (mods[m].e) { const e = new Error('LOAD ' + mods[m].e.message); throw e; }
  return mods[m].m;
}
// The middlewares of spec/Middleware.tla, made of the class the generated module exports.
function middleware(base, kind, st) {
  const bytes = (b) => Array.from(new Uint8Array(b));
  const mine = (a) => { const b = new Uint8Array(a.length); b.set(a); return st.n++ % 2 ? b.buffer : Buffer.from(a); };
  return new (class extends base {
    encode(buffer, id, sequence, uuid) {
      const b = bytes(buffer);
      st.calls.push({ d: 'enc', b, id, q: sequence, u: uuid === undefined ? '' : uuid });
      if (st.refuse) return new Error('refused');
      if (kind === 1) return mine([165, 241, 238].concat(b.map((x) => (x + sequence) % 256)));
      st.table[kind + ':' + id + ':' + sequence] = b;
      return mine(kind === 2 ? [165, 242] : []);
    }
    decode(buffer, id, sequence, uuid) {
      const b = bytes(buffer);
      st.calls.push({ d: 'dec', b, id, q: sequence, u: uuid === undefined ? '' : uuid });
      const no = new Error('not mine');
      if (kind === 1) return b[0] === 165 && b[1] === 241 && b[2] === 238 ? mine(b.slice(3).map((x) => (x + 256000 - sequence) % 256)) : no;
      const t = st.table[kind + ':' + id + ':' + sequence];
      const mark = kind === 2 ? [165, 242] : [];
      return t !== undefined && b.length === mark.length && b.every((x, i) => x === mark[i]) ? mine(t) : no;
    }
  })();
}
function history(m, c) {
  console.warn = () => {};
  const Base = m.middleware();
  delete globalThis[Base.GUID];
  const st = { calls: [], table: {}, refuse: false, n: 0 };
  const r = m.reader();
  let stream = Buffer.alloc(0);
  const out = [];
  for (const e of c.h) {
    st.calls = [];
    if (e.a === 'switch') {
      if (e.m === 0) delete globalThis[Base.GUID]; else middleware(Base, e.m, st);
      out.push({});
    } else if (e.a === 'pack') {
      st.refuse = e.no;
      let b, thrown = false;
      try { b = e.u === '' ? m.pack(e.t, e.v, e.q) : m.pack(e.t, e.v, e.q, e.u); } catch (x) { thrown = true; }
      st.refuse = false;
      if (!thrown) stream = Buffer.concat([stream, Buffer.from(b)]);
      out.push({ thrown, b: thrown ? '' : Buffer.from(b).toString('hex'), calls: st.calls });
    } else {
      const ch = Buffer.from(stream.slice(0, e.n)); stream = stream.slice(e.n);
      const errs = e.u === '' ? r.chunk(ch) : r.chunk(ch, e.u);
      const d = [];
      for (;;) {
        const g = r.next();
        if (g === undefined) break;
        let t, v;
        try { [t, v] = m.rd(g.msg); } catch (x) { t = '!' + x.message; v = null; }
        d.push([t, v, g.header.id, g.header.sequence]);
      }
      out.push({ n: ch.length, e: errs !== undefined, d, l: r.len(), calls: st.calls });
    }
  }
  delete globalThis[Base.GUID];
  return { h: out };
}
function run(c) {
  const m = mod(c.m);
  if (c.o === 'p') {
    const b = m.pack(c.t, c.v, c.s);
    return { b: Buffer.from(b).toString('hex') };
  }
  if (c.o === 'h') return { h: m.hash() };
  if (c.o === 'f') {
    const x = m.from(c.t, c.v, c.p, c.x, c.a);
    if (x instanceof Error) return { no: x.message };
    return { b: Buffer.from(x.pack(c.s)).toString('hex') };
  }
  if (c.o === 'e') {
    const x = m.one(c.t, c.v, c.w);
    return x instanceof Error ? { no: x.message } : { v: x[0] };
  }
  if (c.o === 'y') {
    // the bytes of a body as a Buffer (inside a larger one), an ArrayBuffer, a Uint8Array
    const src = Buffer.concat([Buffer.from([9, 9, 9]), Buffer.from(c.b, 'hex'), Buffer.from([9])]);
    const view = src.slice(3, src.length - 1);
    const own = new Uint8Array(view.length); own.set(view);
    const b = c.k === 0 ? view : c.k === 1 ? own.buffer : own;
    const x = m.bytes(c.t, b);
    return x instanceof Error ? { no: x.message } : { v: x[0] };
  }
  if (c.o === 'w') return history(m, c);
  const r = m.reader();
  const res = [];
  for (const ch of c.c) {
    // the reader is fed what a transport hands over: a view or a buffer of its own
    const errs = r.chunk(Buffer.from(ch, 'hex'));
    const ms = [];
    for (;;) {
      const g = r.next();
      if (g === undefined) break;
      let t, v;
      try { [t, v] = m.rd(g.msg); } catch (e) { t = '!' + e.message; v = null; }
      ms.push([t, v, g.header.id, null, g.header.sequence, null]);
    }
    res.push([errs === undefined ? 'ok' : 'err', ms, r.len(), errs === undefined ? 0 : errs.length]);
  }
  return { r: res };
}
rl.on('line', (l) => {
  const c = JSON.parse(l);
  let o;
  try { o = run(c); } catch (e) { o = { panic: String(e && e.message), load: String(e && e.message).startsWith('LOAD ') }; }
  process.stdout.write(JSON.stringify(o) + '\n');
});
