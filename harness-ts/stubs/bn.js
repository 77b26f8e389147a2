// Stand-in for bn.js 5 (not installed here): the same public methods, over BigInt.
import { Buffer } from "buffer";

const assert = (c, m) => {
  if (!c) throw new Error(m || "Assertion failed");
};
const abs = (x) => (x < 0n ? -x : x);
const bitlen = (x) => (x === 0n ? 0 : abs(x).toString(2).length);

function parse(x, base, endian) {
  if (x === null || x === undefined) return 0n;
  if (BN.isBN(x)) return x._v;
  if (typeof x === "bigint") return x;
  if (base === "le" || base === "be") {
    endian = base;
    base = 10;
  }
  if (typeof x === "number") {
    assert(Number.isInteger(x) && Math.abs(x) < 0x20000000000000);
    let v = BigInt(x);
    if (endian === "le") v = fromBytes(toBytes(v, "be", 0), "le");
    return v;
  }
  if (typeof x === "object") return fromBytes(Array.from(x), endian || "be");
  if (base === "hex") base = 16;
  base = base || 10;
  let s = x.toString().replace(/\s+/g, "");
  let neg = false;
  if (s[0] === "-") {
    neg = true;
    s = s.slice(1);
  }
  let v = 0n;
  for (const c of s) {
    const d = parseInt(c, 36);
    assert(d < base, "Invalid character");
    v = v * BigInt(base) + BigInt(d);
  }
  return neg ? -v : v;
}
function fromBytes(a, endian) {
  let v = 0n;
  const n = a.length;
  for (let i = 0; i < n; i++) v = (v << 8n) | BigInt(a[endian === "le" ? n - 1 - i : i] & 255);
  return v;
}
function toBytes(v, endian, length) {
  let x = abs(v);
  const r = [];
  while (x > 0n) {
    r.push(Number(x & 255n));
    x >>= 8n;
  }
  if (r.length === 0) r.push(0);
  if (length) {
    assert(r.length <= length, "byte array longer than desired length");
    while (r.length < length) r.push(0);
  }
  return endian === "le" ? r : r.reverse();
}
const mk = (v) => {
  const r = new BN(0);
  r._v = v;
  return r;
};

export default class BN {
  constructor(x, base, endian) {
    this._v = parse(x, base, endian);
  }
  static isBN(x) {
    return x instanceof BN;
  }
  static max(a, b) {
    return a.cmp(b) > 0 ? a : b;
  }
  static min(a, b) {
    return a.cmp(b) < 0 ? a : b;
  }
  get negative() {
    return this._v < 0n ? 1 : 0;
  }
  clone() {
    return mk(this._v);
  }
  copy(d) {
    d._v = this._v;
  }
  strip() {
    return this;
  }
  inspect() {
    return "<BN: " + this.toString(16) + ">";
  }
  toString(base = 10, pad = 0) {
    base = base === "hex" ? 16 : base || 10;
    let s = abs(this._v).toString(base);
    if (pad) while (s.length % pad) s = "0" + s;
    return (this._v < 0n ? "-" : "") + s;
  }
  toNumber() {
    assert(bitlen(this._v) <= 53, "Number can only safely store up to 53 bits");
    return Number(this._v);
  }
  valueOf() {
    return this;
  }
  toJSON() {
    return this.toString(16, 2);
  }
  toArray(endian, length) {
    return toBytes(this._v, endian || "be", length);
  }
  toBuffer(endian, length) {
    return Buffer.from(this.toArray(endian, length));
  }
  toArrayLike(T, endian, length) {
    const a = this.toArray(endian, length);
    if (T === Array) return a;
    return T.from ? T.from(a) : new T(a);
  }
  bitLength() {
    return bitlen(this._v);
  }
  byteLength() {
    return Math.ceil(bitlen(this._v) / 8);
  }
  zeroBits() {
    if (this._v === 0n) return 0;
    let n = 0;
    for (let x = abs(this._v); (x & 1n) === 0n; x >>= 1n) n++;
    return n;
  }
  isNeg() {
    return this._v < 0n;
  }
  isEven() {
    return (this._v & 1n) === 0n;
  }
  isOdd() {
    return (this._v & 1n) === 1n;
  }
  isZero() {
    return this._v === 0n;
  }
  cmp(o) {
    return this._v < o._v ? -1 : this._v > o._v ? 1 : 0;
  }
  ucmp(o) {
    return abs(this._v) < abs(o._v) ? -1 : abs(this._v) > abs(o._v) ? 1 : 0;
  }
  cmpn(n) {
    return this.cmp(new BN(n));
  }
  lt(o) {
    return this._v < o._v;
  }
  lte(o) {
    return this._v <= o._v;
  }
  gt(o) {
    return this._v > o._v;
  }
  gte(o) {
    return this._v >= o._v;
  }
  eq(o) {
    return this._v === o._v;
  }
  ltn(n) {
    return this.cmpn(n) < 0;
  }
  lten(n) {
    return this.cmpn(n) <= 0;
  }
  gtn(n) {
    return this.cmpn(n) > 0;
  }
  gten(n) {
    return this.cmpn(n) >= 0;
  }
  eqn(n) {
    return this.cmpn(n) === 0;
  }
  isubn(n) {
    this._v -= BigInt(n);
    return this;
  }
  iaddn(n) {
    this._v += BigInt(n);
    return this;
  }
  imuln(n) {
    this._v *= BigInt(n);
    return this;
  }
  idivn(n) {
    this._v /= BigInt(n);
    return this;
  }
  modrn(n) {
    return Number(this._v % BigInt(n));
  }
  modn(n) {
    return this.modrn(n);
  }
  pow(o) {
    return mk(this._v ** o._v);
  }
  sqr() {
    return mk(this._v * this._v);
  }
  isqr() {
    this._v *= this._v;
    return this;
  }
  divmod(o) {
    assert(o._v !== 0n);
    return { div: mk(this._v / o._v), mod: mk(this._v % o._v) };
  }
  div(o) {
    return this.divmod(o).div;
  }
  mod(o) {
    return this.divmod(o).mod;
  }
  umod(o) {
    const m = this._v % o._v;
    return mk(m < 0n ? m + abs(o._v) : m);
  }
  divRound(o) {
    const q = this._v / o._v;
    const m = abs(this._v % o._v) * 2n;
    const neg = this._v < 0n !== o._v < 0n;
    return mk(m >= abs(o._v) ? (neg ? q - 1n : q + 1n) : q);
  }
  abs() {
    return mk(abs(this._v));
  }
  iabs() {
    this._v = abs(this._v);
    return this;
  }
  neg() {
    return mk(-this._v);
  }
  ineg() {
    this._v = -this._v;
    return this;
  }
  setn(bit, val) {
    const m = 1n << BigInt(bit);
    this._v = val ? this._v | m : this._v & ~m;
    return this;
  }
  testn(bit) {
    return ((this._v >> BigInt(bit)) & 1n) === 1n;
  }
  imaskn(n) {
    this._v &= (1n << BigInt(n)) - 1n;
    return this;
  }
  maskn(n) {
    return this.clone().imaskn(n);
  }
  // the complement of the low `width` bits
  inotn(width) {
    assert(typeof width === "number" && width >= 0);
    const w = width;
    const full = (1n << BigInt(w)) - 1n;
    this._v = this._v ^ full;
    return this;
  }
  notn(width) {
    return this.clone().inotn(width);
  }
  toTwos(width) {
    return this._v < 0n ? mk((1n << BigInt(width)) + this._v) : this.clone();
  }
  fromTwos(width) {
    return this.testn(width - 1) ? mk(this._v - (1n << BigInt(width))) : this.clone();
  }
  egcd() {
    throw new Error("not provided");
  }
}
const two = {
  add: (a, b) => a + b,
  sub: (a, b) => a - b,
  mul: (a, b) => a * b,
  or: (a, b) => a | b,
  and: (a, b) => a & b,
  xor: (a, b) => a ^ b,
};
for (const [n, f] of Object.entries(two)) {
  BN.prototype[n] = function (o) {
    return mk(f(this._v, o._v));
  };
  BN.prototype["i" + n] = function (o) {
    this._v = f(this._v, o._v);
    return this;
  };
  if (n === "or" || n === "and" || n === "xor") {
    BN.prototype["u" + n] = BN.prototype[n];
    BN.prototype["iu" + n] = BN.prototype["i" + n];
  }
}
for (const n of ["add", "sub", "mul", "or", "and"])
  BN.prototype[n + "n"] = function (k) {
    return mk(two[n](this._v, BigInt(k)));
  };
const shift = {
  shl: (a, n) => a << n,
  shr: (a, n) => (a < 0n ? -(-a >> n) : a >> n),
};
for (const [n, f] of Object.entries(shift))
  for (const p of ["", "u"]) {
    BN.prototype[p + n + "n"] = function (k) {
      assert(typeof k === "number" && k >= 0);
      return mk(f(this._v, BigInt(k)));
    };
    BN.prototype["i" + p + n + "n"] = function (k) {
      assert(typeof k === "number" && k >= 0);
      this._v = f(this._v, BigInt(k));
      return this;
    };
  }
BN.BN = BN;
export { BN };
