// Hosts a WebAssembly build of the library: takes batches of calls from file descriptor 3 (shared memory of the monitor) and runs them.
const fs = require('fs');
class Stop extends Error { constructor(s) { super('stop'); this.s = s; } }
const bytes = fs.readFileSync(process.argv[2]), mod = new WebAssembly.Module(bytes);
let stopped = 0;
const stop = s => { if (!stopped) stopped = s; throw new Stop(s); };
const env = { stop: stop, fmod: (x, y) => x % y, _ZNSt8ios_base4InitC1Ev: t => t, _ZNSt8ios_base4InitD1Ev: t => t };
for (const i of WebAssembly.Module.imports(mod)) if (i.kind === 'function' && !(i.name in env)) env[i.name] = () => stop(2);
let ex, mem, at, size, sp0;
function boot() { const inst = new WebAssembly.Instance(mod, { env }); ex = inst.exports; mem = ex.memory; at = ex.ns_shm(); size = ex.ns_size(); ex.ns_init(); sp0 = ex.__stack_pointer ? ex.__stack_pointer.value : 0; }
const STRIDE = 528, H = 16, b1 = Buffer.alloc(1), hdr = Buffer.alloc(16);
try { boot(); } catch (e) { process.exit(3); }
fs.writeSync(3, Buffer.from([32, 0, 0, 0]), 0, 4, 8);
fs.writeSync(1, b1);
for (;;) {
  let n; try { n = fs.readSync(0, b1, 0, 1, null); } catch (e) { if (e.code === 'EAGAIN') continue; n = 0; }
  if (n !== 1) process.exit(0);
  fs.readSync(3, hdr, 0, 16, 0); const count = hdr.readUInt32LE(0);
  let buf = Buffer.from(mem.buffer, at, size); fs.readSync(3, buf, 0, H + count * STRIDE, 0);
  for (let i = 0; i < count; i++) {
    stopped = 0;
    try { ex.ns_one(i); }
    catch (e) {
      let s = stopped || (e instanceof WebAssembly.RuntimeError || e instanceof RangeError ? 4 : 2);
      if (ex.__stack_pointer) ex.__stack_pointer.value = sp0;
      new DataView(mem.buffer).setUint32(at + H + i * STRIDE + 4, s, true);
      if (s === 4) new DataView(mem.buffer).setUint32(at + H + i * STRIDE + 12, 1, true);
    }
  }
  buf = Buffer.from(mem.buffer, at, size); fs.writeSync(3, buf, H, count * STRIDE, H);
  fs.writeSync(1, b1);
}
