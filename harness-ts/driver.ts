// reads a recording, has the TypeScript client read every dumped market ("tsraw"), writes the recording with
// what the client said ("ts") in its place.   node driver.js IN OUT
import fs from "fs";
import BN from "bn.js";
import { PublicKey, Connection } from "@solana/web3.js";
import { Slab, MarketState, EventQueue, EventFill, EventOut, getPriceFromKey, LeafNode, AccountTag } from "aob-client";

type J = any;

// ------------------------------------------------- the notation of the specification
function num(x: J): J {
  let v: bigint = BN.isBN(x) ? BigInt(x.toString(10)) : BigInt(x);
  if (v < 0n) return "negative";
  const r = [];
  for (; v > 0n; v >>= 14n) r.push(Number(v & 16383n));
  return r;
}
function id(k: J): J {
  const v = BigInt(k.toString(10));
  return { p: num(v >> 64n), l: num(v & 0xffffffffffffffffn) };
}
const unid = (h: string) => new BN(h, 16);
const side = (s: J) => (s === 0 ? "B" : s === 1 ? "A" : "?" + s);

// callback infos, as the harness writes them
function mk32(o: number, n: number): number[] {
  const r = new Array(32).fill(0);
  for (let i = 0; i < 4; i++) {
    r[i] = (o >>> (8 * i)) & 255;
    r[4 + i] = (n >>> (8 * i)) & 255;
  }
  for (let i = 8; i < 32; i++) r[i] = (o * 131 + n * 31 + i * 7) & 255;
  return r;
}
function hash(b: number[]): J {
  let h = 7;
  for (const x of b) h = (h * 31 + x) % 1000003;
  return [-1, h];
}
const u32 = (b: number[], i: number) => b[i] + b[i + 1] * 256 + b[i + 2] * 65536 + b[i + 3] * 16777216;
const LIM = 1 << 30;
function cb(kind: string, x: J): J {
  if (x === undefined || x === null) return [-2, 0];
  const b: number[] = [...x];
  const len = kind === "A" ? 32 : kind === "P" ? 40 : 8;
  if (b.length !== len) return [-3, b.length];
  if (kind === "8") {
    const o = u32(b, 0),
      n = u32(b, 4);
    return o < LIM && n < LIM ? [o, n] : hash(b);
  }
  const o = u32(b, 0),
    n = u32(b, 4);
  const same = (o: number, n: number) => mk32(o, n).every((v, i) => v === b[i]);
  if (kind === "A") return o < LIM && n < LIM && same(o, n) ? [o, n] : hash(b);
  const t = u32(b, 32);
  return o < LIM && n === 0 && same(o, 0) && t < LIM && u32(b, 36) === 0 ? [o, t] : hash(b);
}

function event(kind: string, e: J): J {
  if (e instanceof EventFill)
    return {
      k: "F", s: side(e.takerSide), ...id(e.makerOrderId), b: num(e.baseSize), q: num(e.quoteSize),
      m: cb(kind, e.makerCallbackInfo), t: cb(kind, e.takerCallbackInfo),
    };
  if (e instanceof EventOut)
    return { k: "O", s: side(e.side), ...id(e.orderId), b: num(e.baseSize), q: [], m: cb(kind, e.callbackInfo), t: [0, 0] };
  return { k: "?" };
}
const leaf = (l: LeafNode) => ({ ...id(l.key), b: num(l.baseQuantity) });
const tag = (t: J) => AccountTag[Number(t.toString())] || "?";
const prices = (v: J) => v.map((x: J) => [num(x.size), num(x.price)]);

// the orders an iterator gives; more than any slab holds are too many
function all(it: J): J[] {
  const r: J[] = [];
  for (const x of it) {
    r.push(x);
    if (r.length > 5000) throw new Error("does not end");
  }
  return r;
}

function slab(kind: string, s: Slab, r: J): J {
  const items = (d: boolean) => all(s.items(d)).map((x) => ({ ...leaf(x.leafNode), c: cb(kind, x.callbackInfo) }));
  const asc = items(false);
  const o: J = {
    asc,
    desc: items(true),
    dflt: all(s).map((x) => leaf(x.leafNode)),
    count: s.header.leafCount,
    cap: s.orderCapacity,
    tag: tag(s.header.accountTag),
    price: all(s).map((x) => num(x.leafNode.getPrice())),
    key: all(s).map((x) => num(getPriceFromKey(x.leafNode.key))),
    top: [] as J[],
    l2: [] as J[],
    look: [] as J[],
  };
  for (const n of r.ns)
    for (const max of [false, true]) {
      o.top.push({ n, max, out: s.getMinMaxNodes(n, max).map((x) => ({ ...leaf(x.leafNode), c: cb(kind, x.callbackInfo) })) });
      o.l2.push({ n, inc: max, out: prices(s.getL2DepthJS(n, max)) });
    }
  for (const h of r.probes) {
    const k = unid(h);
    const x = s.getNodeByKey(k);
    o.look.push({ ...id(k), out: x === undefined ? [] : [leaf(x)] });
  }
  // nothing above may have changed what is read
  o.again = items(false);
  return o;
}

async function read(r: J): Promise<J> {
  const data = r.data.map((h: string) => Buffer.from(h, "hex"));
  const keys = r.keys.map((h: string) => new PublicKey(Buffer.from(h, "hex")));
  const accs = new Map<string, Buffer>();
  keys.forEach((k: J, i: number) => accs.set(k.toBase58(), Buffer.from(data[i])));
  const conn = new Connection(accs as J);
  const who = (k: J) => keys.findIndex((x: J) => x.equals(k));
  const m = await MarketState.retrieve(conn, keys[0], r.cb);
  const q = await EventQueue.load(conn, keys[1], r.cb);
  const bids = await m.loadBidsSlab(conn);
  const asks = await m.loadAsksSlab(conn);
  const count = q.header.count.toNumber();
  const h = EventQueue.parseEventQueueHeader(Buffer.from(data[1].subarray(0, 32)));
  const o: J = {
    op: "ts", ac: r.ac, ok: true, err: "",
    m: { tag: tag(m.tag), q: who(m.eventQueue), b: who(m.bids), a: who(m.asks), min: num(m.minBaseOrderSize), tick: num(m.tickSize), cb: m.callbackInfoLen },
    qtag: tag(q.header.tag), qcount: count,
    qh: [num(h.tag), num(h.head), num(h.count), num(h.seqNum)], qhx: r.qh,
    ev: [] as J[], fill: [] as J[], nolimit: [] as J[],
    sz: r.sz.map(([k, n]: [string, number]) => (k === "q" ? EventQueue.computeAllocationSize(n, r.cb) : k === "s" ? Slab.computeAllocationSize(n, r.cb) : MarketState.LEN)),
    szx: r.szx,
  };
  for (let i = 0; i < count; i++) o.ev.push(event(r.kind, q.peekAt(i)));
  o.nolimit = q.parseFill().map((e) => event(r.kind, e));
  for (const n of r.ns) if (n > 0) o.fill.push({ n, out: q.parseFill(n).map((e) => event(r.kind, e)) });
  o.bids = slab(r.kind, bids, r);
  o.asks = slab(r.kind, asks, r);
  return o;
}

async function main() {
  const rows = fs.readFileSync(process.argv[2], "utf8").split("\n");
  const out = fs.openSync(process.argv[3], "w");
  for (const line of rows) {
    if (line === "") continue;
    let s = line;
    if (line.includes('"op":"tsraw"')) {
      const r = JSON.parse(line);
      let o: J;
      try {
        o = await read(r);
      } catch (e: J) {
        o = { op: "ts", ac: r.ac, ok: false, err: String(e && e.message).replace(/[^ -~]|["\\|]/g, "?").slice(0, 200) };
      }
      s = JSON.stringify(o);
    }
    fs.writeSync(out, s + "\n");
  }
  fs.closeSync(out);
}
main();
