// node run.mjs module.wasm key=val...
import fs from "node:fs";
const [, , file, ...args] = process.argv;
let mem;
const dec = new TextDecoder();
class Exit extends Error { constructor(c) { super("exit"); this.code = c; } }
const env = {
  js_log: (p, n) => fs.writeSync(1, dec.decode(new Uint8Array(mem.buffer, p, n)) + "\n"),
  js_exit: (c) => { throw new Exit(c); },
};
const m = new WebAssembly.Instance(new WebAssembly.Module(fs.readFileSync(file)), { env });
mem = m.exports.memory;
const put = (s) => {
  const b = new TextEncoder().encode(s);
  const p = m.exports.buf(b.length);
  new Uint8Array(mem.buffer, p, b.length).set(b);
  return [p, b.length];
};
const sc = args.find((a) => a.startsWith("script="));
try {
  const [tp, tn] = put(sc ? fs.readFileSync(sc.slice(7), "utf8") : "");
  const [pp, pn] = put(args.join(" "));
  m.exports.run(pp, pn, tp, tn);
} catch (e) {
  if (e instanceof Exit) process.exit(e.code);
  // a trap: report what was running when it happened
  fs.writeSync(1, "HWMC-TRAP " + e + "\n");
  try { m.exports.trapped(); } catch (f) { if (f instanceof Exit) process.exit(f.code); }
  process.exit(4);
}
