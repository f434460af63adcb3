// Serves requests to the module given as argument: see src/main.rs.
const fs = require("fs");
const mod = new WebAssembly.Module(fs.readFileSync(process.argv[2]));
const HOOKS = WebAssembly.Module.imports(mod);
let ex;
function fresh() {
  const imports = {};
  for (const { module, name } of HOOKS) {
    imports[module] ??= {};
    // The host functions are the module's own exports.
    imports[module][name] = (...a) => ex[name](...a);
  }
  imports.env.oz_try = (p) => {
    const me = ex, sp = me.__stack_pointer.value;
    try { me.oz_callback(p); return 0; } catch (e) {
      if (!(e instanceof WebAssembly.RuntimeError || e instanceof RangeError)) throw e;
      me.__stack_pointer.value = sp;
      return 1;
    }
  };
  ex = new WebAssembly.Instance(mod, imports).exports;
  for (const { module, name } of HOOKS)
    if (name !== "oz_try" && !ex[name]) throw new Error("no host function " + name);
}
fresh();
function read(n) {
  const b = Buffer.alloc(n);
  let o = 0;
  while (o < n) {
    let k;
    try { k = fs.readSync(0, b, o, n - o, null); } catch (e) {
      if (e.code === "EAGAIN") continue;
      if (e.code === "EOF") process.exit(0);
      throw e;
    }
    if (k === 0) process.exit(0);
    o += k;
  }
  return b;
}
function answer(code, msg) {
  const h = Buffer.alloc(8);
  h.writeUInt32LE(code, 0);
  h.writeUInt32LE(msg.length, 4);
  const b = Buffer.concat([h, msg]);
  let o = 0;
  while (o < b.length) {
    try { o += fs.writeSync(1, b, o); } catch (e) { if (e.code !== "EAGAIN") throw e; }
  }
}
for (;;) {
  const body = read(read(4).readUInt32LE(0));
  try {
    // The contracts' allocator never frees.
    if (ex.memory.buffer.byteLength > 1 << 29) fresh();
    const p = ex.oz_buf(body.length) >>> 0;
    new Uint8Array(ex.memory.buffer).set(body, p);
    const n = ex.oz_run() >>> 0;
    const q = ex.oz_answer() >>> 0;
    answer(0, Buffer.from(new Uint8Array(ex.memory.buffer, q, n).slice()));
  } catch (e) {
    fresh();
    answer(2, Buffer.from(String(e.stack || e).slice(0, 1500)));
  }
}
