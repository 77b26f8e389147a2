// Stand-in for the parts of @solana/web3.js 1 the client touches (not installed here).
import BN from "bn.js";
import { Buffer } from "buffer";

const AB = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
export function enc(b) {
  let z = 0;
  while (z < b.length && b[z] === 0) z++;
  let v = BigInt("0x0" + Buffer.from(b).toString("hex"));
  let s = "";
  for (; v > 0n; v /= 58n) s = AB[Number(v % 58n)] + s;
  return "1".repeat(z) + s;
}
export function dec(s) {
  let z = 0;
  while (z < s.length && s[z] === "1") z++;
  let v = 0n;
  for (const c of s) {
    const d = AB.indexOf(c);
    if (d < 0) throw new Error("Non-base58 character");
    v = v * 58n + BigInt(d);
  }
  let h = v.toString(16);
  if (h.length % 2) h = "0" + h;
  const t = v === 0n ? Buffer.alloc(0) : Buffer.from(h, "hex");
  return Buffer.concat([Buffer.alloc(z), t]);
}

export class PublicKey {
  constructor(v) {
    if (v instanceof PublicKey) this._bn = v._bn;
    else if (typeof v === "string") {
      const d = dec(v);
      if (d.length !== 32) throw new Error("Invalid public key input");
      this._bn = new BN(d);
    } else this._bn = new BN(v);
    if (this._bn.byteLength() > 32) throw new Error("Invalid public key input");
  }
  equals(o) {
    return this._bn.eq(o._bn);
  }
  toBytes() {
    return new Uint8Array(this.toBuffer());
  }
  toBuffer() {
    return this._bn.toArrayLike(Buffer, "be", 32);
  }
  toBase58() {
    return enc(this.toBuffer());
  }
  toString() {
    return this.toBase58();
  }
  toJSON() {
    return this.toBase58();
  }
}
PublicKey.default = new PublicKey("11111111111111111111111111111111");

export class Connection {
  // accounts: base58 -> data
  constructor(accounts) {
    this.accounts = accounts || new Map();
  }
  async getAccountInfo(k) {
    const data = this.accounts.get(k.toBase58());
    return data === undefined ? null : { data: Buffer.from(data), executable: false, lamports: 1, owner: PublicKey.default };
  }
  async getMultipleAccountsInfo(ks) {
    return Promise.all(ks.map((k) => this.getAccountInfo(k)));
  }
  async getMinimumBalanceForRentExemption(n) {
    return (n + 128) * 6960;
  }
}
let made = 0;
export class Keypair {
  constructor() {
    made++;
    const b = Buffer.alloc(32, 9);
    b.writeUInt32LE(made, 0);
    this.publicKey = new PublicKey(b);
    this.secretKey = new Uint8Array(64);
  }
  static generate() {
    return new Keypair();
  }
}
export class TransactionInstruction {
  constructor(o) {
    this.keys = o.keys;
    this.programId = o.programId;
    this.data = o.data || Buffer.alloc(0);
  }
}
export class Transaction {
  constructor() {
    this.instructions = [];
  }
  add(...x) {
    this.instructions.push(...x);
    return this;
  }
}
export const SystemProgram = {
  programId: PublicKey.default,
  createAccount(o) {
    return new TransactionInstruction({ keys: [], programId: PublicKey.default, data: Buffer.from(JSON.stringify([o.lamports, o.space])) });
  },
};
export const SYSVAR_RENT_PUBKEY = new PublicKey("SysvarRent111111111111111111111111111111111");
export const LAMPORTS_PER_SOL = 1000000000;
export default { PublicKey, Connection, Keypair, TransactionInstruction, Transaction, SystemProgram };
