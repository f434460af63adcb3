// Serves cases to the module given as argument: see crypto/src/wasmdiff.rs.
const fs = require("fs");
const mod = new WebAssembly.Module(fs.readFileSync(process.argv[2]));
let ex;
function fresh() { ex = new WebAssembly.Instance(mod, {}).exports; }
fresh();
function read(n) {
  const b = Buffer.alloc(n);
  let o = 0;
  while (o < n) {
    let k;
    try { k = fs.readSync(0, b, o, n - o, null); } catch (e) {
      if (e.code === "EAGAIN") continue;
      if (e.code === "EOF") process.exit(0);
      throw e;
    }
    if (k === 0) process.exit(0);
    o += k;
  }
  return b;
}
function write(b) {
  let o = 0;
  while (o < b.length) {
    try { o += fs.writeSync(1, b, o); } catch (e) { if (e.code !== "EAGAIN") throw e; }
  }
}
function answer(code, msg) {
  const h = Buffer.alloc(8);
  h.writeUInt32LE(code, 0);
  h.writeUInt32LE(msg.length, 4);
  write(Buffer.concat([h, msg]));
}
for (;;) {
  const h = read(20);
  const [prop, part, size, nrec, nout] = [0, 4, 8, 12, 16].map((i) => h.readUInt32LE(i));
  const body = read(nrec * 8 + nout);
  try {
    const p = ex.buf(body.length) >>> 0;
    new Uint8Array(ex.memory.buffer).set(body, p);
    const r = ex.run(prop, part, size, nrec, nout) >>> 0;
    if (r < 16) answer(r, Buffer.alloc(0));
    else {
      const q = ex.message() >>> 0;
      answer(1, Buffer.from(new Uint8Array(ex.memory.buffer, q, r - 16).slice()));
    }
  } catch (e) {
    fresh();
    answer(2, Buffer.from(String(e).slice(0, 200)));
  }
}
