// Runs the compiled web module for the harness: one JSON request per line on standard input, one JSON reply
// per line on file descriptor 3. {"op":"new"} starts a fresh module, {"op":"send","args":[...]} calls it.
const fs = require("fs");
const readline = require("readline");
// What the module prints is thrown away.
const enosys = (...a) => { const e = new Error("not implemented"); e.code = "ENOSYS"; a[a.length - 1](e); };
globalThis.fs = {
  constants: { O_WRONLY: -1, O_RDWR: -1, O_CREAT: -1, O_TRUNC: -1, O_APPEND: -1, O_EXCL: -1, O_DIRECTORY: -1 },
  writeSync: (fd, buf) => buf.length,
  write: (fd, buf, offset, length, position, callback) => callback(null, length),
  fsync: (fd, callback) => callback(null),
};
for (const f of ["chmod", "chown", "close", "fchmod", "fchown", "fstat", "ftruncate", "lchown", "link", "lstat", "mkdir", "open", "read",
  "readdir", "readlink", "rename", "rmdir", "stat", "symlink", "truncate", "unlink", "utimes"]) globalThis.fs[f] = enosys;
require(process.argv[2]);
const mod = new WebAssembly.Module(fs.readFileSync(process.argv[3]));
const out = (o) => {
  let b = Buffer.from(JSON.stringify(o) + "\n");
  while (b.length > 0) {
    try {
      b = b.subarray(fs.writeSync(3, b));
    } catch (e) {
      if (e.code !== "EAGAIN") throw e;
    }
  }
};
let dead = null;
async function start() {
  dead = null;
  delete globalThis.topolithSend;
  const go = new Go();
  go.exit = (code) => { dead = "the module exited with code " + code; };
  const inst = await WebAssembly.instantiate(mod, go.importObject);
  go.run(inst).then(() => { dead = dead || "the module ended"; }, (e) => { dead = String(e); });
  for (let i = 0; i < 200 && typeof globalThis.topolithSend !== "function" && !dead; i++) {
    await new Promise((r) => setTimeout(r, 5));
  }
  if (typeof globalThis.topolithSend !== "function") dead = dead || "the module defines no topolithSend";
}
const special = {
  undefined: undefined, nan: NaN, symbol: Symbol("s"), function: () => 1, bigint: 12n,
};
const arg = (a) => (a && typeof a === "object" && "special" in a ? special[a.special] : a);
async function handle(line) {
  const req = JSON.parse(line);
  if (req.op === "new") {
    await start();
    return { dead };
  }
  if (dead) return { dead };
  try {
    const r = globalThis.topolithSend(...req.args.map(arg));
    return { dead, type: typeof r, reply: typeof r === "string" ? r : String(r) };
  } catch (e) {
    return { dead, threw: String(e) };
  }
}
let queue = Promise.resolve();
readline.createInterface({ input: process.stdin }).on("line", (line) => {
  queue = queue.then(() => handle(line)).then(out, (e) => out({ driver: String(e && e.stack || e) }));
}).on("close", () => process.exit(0));
