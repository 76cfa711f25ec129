// Values exchanged with the specification: scalars are little-endian byte arrays.
export interface IMod { pack(t: string, v: any, seq: number, uuid?: string): any; reader(): any; rd(msg: any): [string, any]; hash(): string; middleware(): any; from(t: string, v: any, path: string[], tok: string, alts: any): any; bytes(t: string, b: any): any; one(t: string, v: any, w: any): any; }
function buf(v: any): Buffer { return Buffer.from(v as number[]); }
function out(n: number, f: (b: Buffer) => void): number[] { const b = Buffer.alloc(n); f(b); return Array.from(b); }
export const mk_bool = (v: any) => v[0] === 1;
export const mk_u8 = (v: any) => buf(v).readUInt8(0);
export const mk_u16 = (v: any) => buf(v).readUInt16LE(0);
export const mk_u32 = (v: any) => buf(v).readUInt32LE(0);
export const mk_u64 = (v: any) => buf(v).readBigUInt64LE(0);
export const mk_i8 = (v: any) => buf(v).readInt8(0);
export const mk_i16 = (v: any) => buf(v).readInt16LE(0);
export const mk_i32 = (v: any) => buf(v).readInt32LE(0);
export const mk_i64 = (v: any) => buf(v).readBigInt64LE(0);
export const mk_f32 = (v: any) => buf(v).readFloatLE(0);
export const mk_f64 = (v: any) => buf(v).readDoubleLE(0);
export const mk_str = (v: any) => buf(v).toString('utf8');
function num(x: any): any { if (typeof x !== 'number') throw new Error('NOT A NUMBER: ' + typeof x); return x; }
function big(x: any): any { if (typeof x !== 'bigint') throw new Error('NOT A BIGINT: ' + typeof x); return x; }
export const rd_bool = (x: any) => { if (typeof x !== 'boolean') throw new Error('NOT A BOOL'); return [x ? 1 : 0]; };
export const rd_u8 = (x: any) => out(1, (b) => b.writeUInt8(num(x)));
export const rd_u16 = (x: any) => out(2, (b) => b.writeUInt16LE(num(x)));
export const rd_u32 = (x: any) => out(4, (b) => b.writeUInt32LE(num(x)));
export const rd_u64 = (x: any) => out(8, (b) => b.writeBigUInt64LE(big(x)));
export const rd_i8 = (x: any) => out(1, (b) => b.writeInt8(num(x)));
export const rd_i16 = (x: any) => out(2, (b) => b.writeInt16LE(num(x)));
export const rd_i32 = (x: any) => out(4, (b) => b.writeInt32LE(num(x)));
export const rd_i64 = (x: any) => out(8, (b) => b.writeBigInt64LE(big(x)));
export const rd_f32 = (x: any) => out(4, (b) => b.writeFloatLE(num(x)));
export const rd_f64 = (x: any) => out(8, (b) => b.writeDoubleLE(num(x)));
export const rd_str = (x: any) => { if (typeof x !== 'string') throw new Error('NOT A STRING'); return Array.from(Buffer.from(x, 'utf8')); };
export function opt(v: any, f: (x: any) => any): any { return v.length === 0 ? undefined : f(v[0]); }
export function arr(v: any, f: (x: any) => any): any { return v.map((x: any) => f(x)); }
export function ropt(x: any, f: (x: any) => any): any { return x === undefined ? [] : [f(x)]; }
export function rarr(x: any, f: (x: any) => any): any { if (!Array.isArray(x)) throw new Error('NOT AN ARRAY'); return x.map((y: any) => f(y)); }
export function has(msg: any, path: string[]): boolean { return at(msg, path) !== undefined; }
export function at(msg: any, path: string[]): any { let m = msg; for (const p of path) { if (m === undefined || m === null) return undefined; m = m[p]; } return m; }

// Objects for Message.from (spec/Accept.tla): the base value with one place changed.
const WIDTH: { [k: string]: [number, boolean] } = { u8: [8, false], u16: [16, false], u32: [32, false], u64: [64, false], i8: [8, true], i16: [16, true], i32: [32, true], i64: [64, true] };
function bound(t: string, tok: string): any {
  const w = WIDTH[t];
  if (w === undefined) return tok === 'max' ? 1e300 : tok;
  const one = BigInt(1);
  const max = w[1] ? (one << BigInt(w[0] - 1)) - one : (one << BigInt(w[0])) - one;
  const min = w[1] ? -(one << BigInt(w[0] - 1)) : BigInt(0);
  const v = tok === 'max' ? max : tok === 'min' ? min : tok === 'over' ? max + one : min - one;
  return w[0] === 64 ? v : Number(v);
}
function token(m: any, k: any, old: any, tok: string, own: any): any {
  switch (tok) {
    case 'num': return 5;
    case 'big': return BigInt(5);
    case 'str': return 'q';
    case 'bool': return true;
    case 'null': return null;
    case 'undef': return undefined;
    case 'obj': case 'empty-obj': return {};
    case 'arr': return [old];
    case 'nan': return NaN;
    case 'inf': return Infinity;
    case 'frac': return 1.5;
    case 'empty': return [];
    case 'inst': return old;
    case 'other': return new (class { public x = 1; })();
    case 'plain': return Object.assign({}, old);
  }
  return bound(k.t, tok);
}
export function from(C: any, m: any, inst: any, kinds: any, path: string[], tok: string, alts: any, mk: any): any {
  const obj: any = {};
  for (const k of kinds.f) obj[k.n] = inst[k.n];
  if (path.length === 0) {
    if (tok === 'keep') return C.from(obj);
    if (tok === 'extra') { obj['zz_unknown'] = 1; return C.from(obj); }
    return C.from(token(m, {}, obj, tok, inst));
  }
  let k = kinds.f[Number(path[0].slice(1))];
  let at: any = obj;
  let key: any = k.n;
  for (const s of path.slice(1)) {
    if (s[0] === '=') {
      const n = Number(s.slice(1));
      const holder: any = mk[k.r](alts[n]);
      at[key] = holder; k = k.e[n]; at = holder; key = k.n;
    } else {
      at[key] = at[key].slice(); at = at[key]; key = Number(s);
    }
  }
  if (tok === 'missing') { delete at[key]; return C.from(obj); }
  if (tok === 'two') { at[key] = Object.assign({}, mk[k.r](alts[0]), mk[k.r](alts[alts.length - 1])); return C.from(obj); }
  at[key] = token(m, k, at[key], tok, inst);
  return C.from(obj);
}
// a message with the fields o: made at once, from its defaults field by field, or out of the one made before it
let built = 0;
const last = new Map<any, any>();
export function build(C: any, o: any): any {
	const how = built++ % 3;
	const before = last.get(C);
	last.set(C, Object.assign({}, o));
	if (how === 0 || (how === 2 && before === undefined)) { return new C(o); }
	const m = how === 1 ? C.defaults() : new C(before);
	Object.keys(o).forEach((k) => { m[k] = o[k]; });
	return m;
}
