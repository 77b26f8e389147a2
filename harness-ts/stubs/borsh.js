// Stand-in for borsh 0.6 (not installed here): (de)serialization by schema.
import BN from "bn.js";
import { Buffer } from "buffer";

export class BorshError extends Error {
  constructor(m) {
    super(m);
    this.originalMessage = m;
    this.fieldPath = [];
  }
  addToFieldPath(f) {
    this.fieldPath.unshift(f);
    this.message = this.originalMessage + ": " + this.fieldPath.join(".");
  }
}

export class BinaryWriter {
  constructor() {
    this.b = [];
  }
  writeU8(v) {
    this.b.push(v & 255);
  }
  int(v, n) {
    const a = new BN(v).toArray("le", n);
    this.b.push(...a);
  }
  writeU16(v) {
    this.int(v, 2);
  }
  writeU32(v) {
    this.int(v, 4);
  }
  writeU64(v) {
    this.int(v, 8);
  }
  writeU128(v) {
    this.int(v, 16);
  }
  writeU256(v) {
    this.int(v, 32);
  }
  writeU512(v) {
    this.int(v, 64);
  }
  writeString(s) {
    const x = Buffer.from(s, "utf8");
    this.writeU32(x.length);
    this.b.push(...x);
  }
  writeFixedArray(a) {
    this.b.push(...a);
  }
  writeArray(a, fn) {
    this.writeU32(a.length);
    for (const x of a) fn(x);
  }
  toArray() {
    return Uint8Array.from(this.b);
  }
}

export class BinaryReader {
  constructor(buf) {
    this.buf = buf;
    this.offset = 0;
  }
  readBuffer(n) {
    if (this.offset + n > this.buf.length) throw new BorshError(`Expected buffer length ${n} isn't within bounds`);
    const r = this.buf.slice(this.offset, this.offset + n);
    this.offset += n;
    return r;
  }
  small(n) {
    if (typeof this.buf.readUInt8 !== "function") throw new TypeError("this.buf.readUInt8 is not a function");
    if (this.offset + n > this.buf.length) throw new BorshError("Reached the end of buffer when deserializing");
    const v = this.buf.readUIntLE(this.offset, n);
    this.offset += n;
    return v;
  }
  readU8() {
    return this.small(1);
  }
  readU16() {
    return this.small(2);
  }
  readU32() {
    return this.small(4);
  }
  readU64() {
    return new BN(this.readBuffer(8), "le");
  }
  readU128() {
    return new BN(this.readBuffer(16), "le");
  }
  readU256() {
    return new BN(this.readBuffer(32), "le");
  }
  readU512() {
    return new BN(this.readBuffer(64), "le");
  }
  readString() {
    return new TextDecoder("utf-8", { fatal: true }).decode(this.readBuffer(this.readU32()));
  }
  readFixedArray(n) {
    return new Uint8Array(this.readBuffer(n));
  }
  readArray(fn) {
    const n = this.readU32();
    const r = [];
    for (let i = 0; i < n; i++) r.push(fn());
    return r;
  }
}
const cap = (s) => s.charAt(0).toUpperCase() + s.slice(1);

function serializeField(schema, name, value, type, w) {
  if (typeof type === "string") w[`write${cap(type)}`](value);
  else if (Array.isArray(type)) {
    if (typeof type[0] === "number") {
      if (value.length !== type[0]) throw new BorshError(`Expecting byte array of length ${type[0]}, but got ${value.length} bytes`);
      w.writeFixedArray(value);
    } else if (type.length === 2 && typeof type[1] === "number") {
      if (value.length !== type[1]) throw new BorshError(`Expecting byte array of length ${type[1]}, but got ${value.length} bytes`);
      for (let i = 0; i < type[1]; i++) serializeField(schema, null, value[i], type[0], w);
    } else w.writeArray(value, (x) => serializeField(schema, name, x, type[0], w));
  } else if (type.kind !== undefined) {
    if (type.kind !== "option") throw new BorshError(`FieldType ${type} unrecognized`);
    if (value === null || value === undefined) w.writeU8(0);
    else {
      w.writeU8(1);
      serializeField(schema, name, value, type.type, w);
    }
  } else serializeStruct(schema, value, w);
}
function serializeStruct(schema, obj, w) {
  if (typeof obj.borshSerialize === "function") return obj.borshSerialize(w);
  const s = schema.get(obj.constructor);
  if (!s) throw new BorshError(`Class ${obj.constructor.name} is missing in schema`);
  if (s.kind === "struct") s.fields.forEach(([n, t]) => serializeField(schema, n, obj[n], t, w));
  else if (s.kind === "enum") {
    for (let i = 0; i < s.values.length; i++) {
      const [n, t] = s.values[i];
      if (n === obj[s.field]) {
        w.writeU8(i);
        serializeField(schema, n, obj[n], t, w);
        break;
      }
    }
  } else throw new BorshError(`Unexpected schema kind: ${s.kind} for ${obj.constructor.name}`);
}
export function serialize(schema, obj, Writer = BinaryWriter) {
  const w = new Writer();
  serializeStruct(schema, obj, w);
  return w.toArray();
}

function deserializeField(schema, name, type, r) {
  try {
    if (typeof type === "string") return r[`read${cap(type)}`]();
    if (Array.isArray(type)) {
      if (typeof type[0] === "number") return r.readFixedArray(type[0]);
      if (typeof type[1] === "number") {
        const a = [];
        for (let i = 0; i < type[1]; i++) a.push(deserializeField(schema, null, type[0], r));
        return a;
      }
      return r.readArray(() => deserializeField(schema, name, type[0], r));
    }
    if (type.kind === "option") return r.readU8() ? deserializeField(schema, name, type.type, r) : undefined;
    return deserializeStruct(schema, type, r);
  } catch (e) {
    if (e instanceof BorshError) e.addToFieldPath(name);
    throw e;
  }
}
function deserializeStruct(schema, T, r) {
  if (typeof T.borshDeserialize === "function") return T.borshDeserialize(r);
  const s = schema.get(T);
  if (!s) throw new BorshError(`Class ${T.name} is missing in schema`);
  if (s.kind === "struct") {
    const x = {};
    for (const [n, t] of s.fields) x[n] = deserializeField(schema, n, t, r);
    return new T(x);
  }
  if (s.kind === "enum") {
    const i = r.readU8();
    if (i >= s.values.length) throw new BorshError(`Enum index: ${i} is out of range`);
    const [n, t] = s.values[i];
    return new T({ [n]: deserializeField(schema, n, t, r) });
  }
  throw new BorshError(`Unexpected schema kind: ${s.kind} for ${T.constructor.name}`);
}
export function deserialize(schema, T, buffer, Reader = BinaryReader) {
  const r = new Reader(buffer);
  const x = deserializeStruct(schema, T, r);
  if (r.offset < buffer.length) throw new BorshError(`Unexpected ${buffer.length - r.offset} bytes after deserialized data`);
  return x;
}
export function deserializeUnchecked(schema, T, buffer, Reader = BinaryReader) {
  return deserializeStruct(schema, T, new Reader(buffer));
}
