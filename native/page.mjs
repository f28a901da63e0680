// Hosts the studio page (the real app.js with the real three.js, on a small DOM) for the simulator:
// one command per line in, one answer per line out; nothing happens between commands.
import vm from "node:vm";
import fs from "node:fs";
import path from "node:path";
import readline from "node:readline";
import { makeDom } from "./dom.mjs";

let statics = null, THREE = null, sources = {}, pages = {}, cur = null;

function record(p, x) {
  const s = x && (x.stack || x.message) ? String(x.stack || x.message) : String(x);
  p.errors.push(s.split("\n").slice(0, 4).join(" | ").slice(0, 600));
}
process.on("unhandledRejection", (x) => { if (cur) record(cur, x); });
process.on("uncaughtException", (x) => { if (cur) record(cur, x); });

const settle = async () => { for (let i = 0; i < 3; i++) await new Promise((r) => setImmediate(r)); };

async function boot(dir) {
  statics = dir;
  for (const f of ["app.js", "index.html", "vendor/OrbitControls.js", "vendor/TransformControls.js"]) sources[f] = fs.readFileSync(path.join(dir, f), "utf8");
  const m = new vm.SourceTextModule(fs.readFileSync(path.join(dir, "vendor/three.module.js"), "utf8"), { identifier: "three" });
  await m.link(() => { throw new Error("three imports something"); });
  await m.evaluate();
  THREE = m.namespace;
}

class Page {
  constructor(id, storage, now) {
    this.id = id; this.effects = []; this.errors = []; this.timers = {}; this.fetches = {}; this.sockets = {}; this.frames = []; this.seq = 0; this.t = now; this.scenes = []; this.cameras = []; this.gizmos = [];
    this.storage = storage;
  }
  effect(e) { this.effects.push(e); }
  async load() {
    const p = this;
    const env = {
      now: () => p.t * 1000,
      guard(f) { try { const r = f(); if (r && typeof r.then === "function") r.then(null, (x) => record(p, x)); } catch (x) { record(p, x); } },
      window: null,
    };
    class ImageData { constructor(a, b, c) { if (typeof a === "number") { this.width = a; this.height = b; this.data = new Uint8ClampedArray(a * b * 4); } else { this.data = a; this.width = b; this.height = c ?? a.length / 4 / b; } } }
    env.ImageData = ImageData;
    const dom = makeDom(env);
    this.dom = dom; this.doc = dom.document;
    for (const n of dom.parse(sources["index.html"])) dom.document.appendChild(n);
    const g = new dom.Target();
    env.window = g;
    const ctx = vm.createContext(g);
    class AbortError extends Error { constructor() { super("The operation was aborted."); this.name = "AbortError"; } }
    const later = (f, ms, every, args = []) => { const fn = args.length && typeof f === "function" ? () => f(...args) : f; const id = ++p.seq; p.timers[id] = { fn, every: every ? ms : null }; p.effect({ e: "timer", id, delay: Math.max(0, Number(ms) || 0) / 1000 }); return id; };
    const stop = (id) => { if (p.timers[id]) { delete p.timers[id]; p.effect({ e: "untimer", id }); } };
    class WebSocket extends dom.Target {
      constructor(url) { super(); this.url = String(url); this.readyState = 0; this.bufferedAmount = 0; this.id = ++p.seq; p.sockets[this.id] = this; p.effect({ e: "ws-open", id: this.id, url: this.url }); }
      send(d) { if (this.readyState === 0) { const x = new Error("Failed to execute 'send' on 'WebSocket': Still in CONNECTING state."); x.name = "InvalidStateError"; throw x; } if (this.readyState === 1) p.effect({ e: "ws-send", id: this.id, data: String(d) }); }
      close() { if (this.readyState < 2) { this.readyState = 2; p.effect({ e: "ws-close", id: this.id }); } }
    }
    for (const [k, v] of Object.entries({ CONNECTING: 0, OPEN: 1, CLOSING: 2, CLOSED: 3 })) { WebSocket[k] = v; WebSocket.prototype[k] = v; }
    class OffscreenCanvas { constructor(w, h) { this.width = w; this.height = h; } getContext() { return this._ctx = this._ctx || dom.context(this); } }
    class Observer { constructor(f) { this.f = f; } observe() { env.guard(() => this.f([], this)); } unobserve() {} disconnect() {} }
    const storage = {
      getItem: (k) => (k in p.storage ? p.storage[k] : null),
      setItem: (k, v) => { p.storage[k] = String(v); },
      removeItem: (k) => { delete p.storage[k]; }, clear: () => { for (const k in p.storage) delete p.storage[k]; }, key: (i) => Object.keys(p.storage)[i] ?? null,
      get length() { return Object.keys(p.storage).length; },
    };
    function respond(status, body) {
      const text = body;
      return { ok: status >= 200 && status < 300, status, statusText: String(status), redirected: false, type: "basic", url: "", headers: { get: (k) => (k.toLowerCase() === "content-type" ? "application/json" : null) },
        json: async () => vm.runInContext("JSON", ctx).parse(text), text: async () => text, clone() { return respond(status, body); } };
    }
    this.respond = respond;
    const editor = this.editor = {
      text: "", listeners: [], options: {},
      getValue: () => editor.text,
      setValue(t) { editor.text = String(t); editor.changed("setValue"); },
      replaceRange() {}, on(k, f) { editor.listeners.push([k, f]); }, off(k, f) { editor.listeners = editor.listeners.filter((x) => x[0] !== k || x[1] !== f); },
      changed(origin) { for (const [k, f] of [...editor.listeners]) if (k === "change" || k === "changes") env.guard(() => f(editor, { origin })); },
      getScrollInfo: () => ({ left: 0, top: 0, height: 100, width: 100, clientHeight: 50, clientWidth: 50 }), scrollTo() {}, scrollIntoView() {}, refresh() {}, focus() {},
      addLineClass() {}, removeLineClass() {}, getCursor: () => ({ line: 0, ch: 0 }), setCursor() {}, setOption(k, v) { editor.options[k] = v; }, getOption: (k) => editor.options[k],
      operation: (f) => f(), getDoc: () => editor, clearHistory() {}, getWrapperElement: () => p.doc.getElementById("editor-pane"), lineCount: () => editor.text.split("\n").length,
      getLine: (i) => editor.text.split("\n")[i], somethingSelected: () => false, getSelection: () => "", listSelections: () => [], isClean: () => true, markClean() {}, changeGeneration: () => 0, save() {}, lastLine: () => editor.text.split("\n").length - 1,
    };
    const CodeMirror = Object.assign(() => editor, { fromTextArea: () => editor, commands: {}, Pass: {} });
    const globals = {
      window: ctx, self: ctx, document: dom.document, localStorage: storage, sessionStorage: storage, location: { host: "sim", hostname: "sim", protocol: "http:", href: "http://sim/", origin: "http://sim", pathname: "/", search: "", hash: "", reload() { p.effect({ e: "reload" }); } },
      navigator: { userAgent: "sim", platform: "sim", onLine: true }, devicePixelRatio: 1, innerWidth: 1200, innerHeight: 800,
      fetch(url, opt = {}) {
        return new (vm.runInContext("Promise", ctx))((ok, fail) => {
          if (opt.signal?.aborted) { fail(new AbortError()); return; }
          const id = ++p.seq;
          p.fetches[id] = { ok, fail };
          opt.signal?.addEventListener?.("abort", () => { if (p.fetches[id]) { delete p.fetches[id]; fail(new AbortError()); p.effect({ e: "abort", id }); } });
          p.effect({ e: "fetch", id, url: String(url?.url ?? url).replace(/^http:\/\/sim/, ""), method: String(opt.method || "GET").toUpperCase(), body: opt.body === undefined || opt.body === null ? null : String(opt.body) });
        });
      },
      AbortController: class { constructor() { const s = new dom.Target(); s.aborted = false; this.signal = s; } abort() { if (!this.signal.aborted) { this.signal.aborted = true; this.signal.dispatchEvent(new dom.Ev("abort")); } } },
      WebSocket, OffscreenCanvas, ResizeObserver: Observer, IntersectionObserver: Observer, MutationObserver: Observer, ImageData, CodeMirror,
      Event: dom.Ev, CustomEvent: dom.Ev, MouseEvent: dom.Ev, PointerEvent: dom.Ev, Node: dom.Node, Element: dom.El, HTMLElement: dom.El, EventTarget: dom.Target,
      Option: function (text, value, d, sel) { const o = new dom.El("option"); o.textContent = text ?? ""; if (value !== undefined) o.value = value; if (sel) o.selected = true; return o; },
      setTimeout: (f, ms, ...a) => later(f, ms, false, a), setInterval: (f, ms, ...a) => later(f, ms, true, a), clearTimeout: stop, clearInterval: stop,
      requestAnimationFrame: (f) => { p.frames.push([++p.seq, f]); return p.seq; }, cancelAnimationFrame: (id) => { p.frames = p.frames.filter((x) => x[0] !== id); },
      requestIdleCallback: (f) => later(f, 0, false), cancelIdleCallback: stop,
      performance: { now: () => p.t * 1000, mark() {}, measure() {} }, queueMicrotask, structuredClone, console: { log() {}, warn() {}, error() {}, info() {}, debug() {} },
      getComputedStyle: (e) => e.style, matchMedia: () => ({ matches: false, addEventListener() {}, addListener() {} }), alert() {}, confirm: () => true, prompt: () => null,
      URL, URLSearchParams, Headers, TextEncoder, TextDecoder, Blob: class { constructor(parts) { this.parts = parts; } },
    };
    for (const [k, v] of Object.entries(globals)) g[k] = v;
    vm.runInContext("{ let s = 12345; Math.random = () => (s = (s * 16807) % 2147483647) / 2147483647; const D = Date; globalThis.Date = class extends D { constructor(...a) { if (a.length) super(...a); else super(performance.now()); } static now() { return performance.now(); } }; }", ctx);
    class Scene extends THREE.Scene { constructor() { super(); p.scenes.push(this); } }
    class PerspectiveCamera extends THREE.PerspectiveCamera { constructor(...a) { super(...a); p.cameras.push(this); } }
    class WebGLRenderer {
      constructor(o = {}) {
        this.domElement = o.canvas || new dom.El("canvas");
        return new Proxy(this, { get: (t, k) => (k in t ? t[k] : typeof k === "symbol" ? undefined : (t[k] = () => undefined)) });
      }
      render(scene, camera) { scene.updateMatrixWorld(); if (!camera.parent) camera.updateMatrixWorld(); }
    }
    const over = { Scene, PerspectiveCamera, WebGLRenderer };
    const three = new vm.SyntheticModule(Object.keys(THREE), function () { for (const k of Object.keys(THREE)) this.setExport(k, over[k] || THREE[k]); }, { context: ctx, identifier: "three" });
    const cache = { three };
    const link = (spec) => {
      const key = spec === "three" ? "three" : spec.replace(/^\/static\//, "").replace(/^\.\//, "");
      if (cache[key]) return cache[key];
      const file = path.join(statics, key);
      const real = new vm.SourceTextModule(sources[key] ?? fs.readFileSync(file, "utf8"), { context: ctx, identifier: key });
      if (/TransformControls/.test(key)) return cache[key] = real;
      return cache[key] = real;
    };
    if (THREE.__gizmos === undefined) { /* attach() below finds the gizmo */ }
    const app = new vm.SourceTextModule(sources["app.js"], { context: ctx, identifier: "app.js" });
    try {
      await app.link(link);
      const tc = Object.values(cache).find((m) => m.identifier === "vendor/TransformControls.js");
      if (tc) {
        // remember every gizmo that is made
        const proto = THREE.EventDispatcher.prototype;
        const real = proto.addEventListener;
        proto.addEventListener = function (t, f) { if (t === "dragging-changed" && !p.gizmos.includes(this)) p.gizmos.push(this); return real.call(this, t, f); };
        try { await app.evaluate(); } finally { proto.addEventListener = real; }
      } else await app.evaluate();
    } catch (x) { record(this, x); }
    this.dom.document.dispatchEvent(new dom.Ev("DOMContentLoaded", { bubbles: true }));
    g.dispatchEvent(new dom.Ev("load"));
  }
  frame() { const f = this.frames; this.frames = []; for (const [, fn] of f) { try { fn(this.t * 1000); } catch (x) { record(this, x); } } }
  $(id) { return this.doc.getElementById(id); }
  fire(el, type, init = {}) { el.dispatchEvent(new this.dom.Ev(type, { bubbles: true, ...init })); }
  get segment() { return this.doc.querySelector("#segments button.active")?.dataset.segment ?? null; }
  rows() {
    const out = [];
    for (const row of this.$("inspector-fields").children) {
      const label = row.querySelector("label");
      const ctl = row.querySelectorAll("input, select");
      if (label && ctl.length) out.push({ label: label.textContent, ctl });
    }
    return out;
  }
  where() { return { segment: this.segment, item: this.$("item-row").hidden ? null : this.$("item-select").value }; }
  pickables() {
    const out = [];
    for (const s of this.scenes) s.traverse((o) => { if (o.isMesh && o.userData?.name && o.userData?.kind) out.push(o); });
    return out;
  }
  act(a) {
    const at = this.where();
    switch (a.do) {
      case "click": this.$(a.id).click(); return at;
      case "segment": { const b = this.doc.querySelectorAll("#segments button"); const x = b.find((y) => y.dataset.segment === a.segment); if (x) x.click(); return at; }
      case "item": { const s = this.$("item-select"), o = s.options; if (!o.length) return at; s.value = o[a.k % o.length].value; const v = s.value; this.fire(s, "input"); this.fire(s, "change"); return { ...at, chose: v }; }
      case "add": { this.$("item-add").click(); const b = this.doc.querySelectorAll("#popover button"); if (!b.length) return at; const x = b[a.k % b.length], t = x.textContent; x.click(); return { ...at, option: t }; }
      case "field": {
        const rows = this.rows();
        if (!rows.length) return at;
        const r = rows.find((x) => x.label === a.label) ?? rows[a.k % rows.length], c0 = r.ctl[0];
        if (c0.localName === "select") { const o = c0.options; const want = o[a.pick % o.length].value; c0.value = want; this.fire(c0, "input"); this.fire(c0, "change"); return { ...at, label: r.label, kind: "select", value: want }; }
        if (c0.type === "checkbox") { c0.click(); return { ...at, label: r.label, kind: "toggle", value: c0.checked }; }
        if (c0.type === "range") { const v = Number(c0.min) + (Number(c0.max) - Number(c0.min)) * a.unit; c0.value = v; const q = Number(c0.value); this.fire(c0, "input"); this.fire(c0, "change"); return { ...at, label: r.label, kind: "slider", value: q }; }
        const c = r.ctl[a.pick % r.ctl.length];
        c.value = a.text ?? a.number;
        const values = r.ctl.map((x) => x.value);
        this.fire(c, "input"); this.fire(c, "change");
        return { ...at, label: r.label, kind: "number", values };
      }
      case "chip": { const chips = this.doc.querySelectorAll("#inspector-fields .chips span"); if (!chips.length) return at; const x = chips[a.k % chips.length], b = x.querySelector("b"); const t = x.childNodes[0].textContent; (b || x).click(); return { ...at, chip: t, detach: !!b }; }
      case "action": { const b = this.doc.querySelectorAll("#inspector-actions button"); if (!b.length) return at; const x = b[a.k % b.length], t = x.textContent; x.click(); return { ...at, button: t }; }
      case "type": this.editor.text = a.text; this.editor.changed("+input"); return at;
      case "input": { const e = this.$(a.id); e.value = a.value; this.fire(e, "input"); this.fire(e, "change"); return at; }
      case "check": { const e = this.$(a.id); if (e.checked !== a.on) e.click(); return at; }
      case "drop": this.fire(this.$("editor-pane"), "dragover"); this.fire(this.$("editor-pane"), "drop", { dataTransfer: { files: a.name === null ? [] : [{ name: a.name, text: async () => a.content, size: a.content.length }], items: [], types: ["Files"] } }); return at;
      case "pick": {
        this.frame();
        const l = this.pickables(); if (!l.length) return at;
        const o = l[a.k % l.length];
        const v = o.getWorldPosition(new THREE.Vector3());
        if (!v.toArray().every(Number.isFinite)) return at;
        v.project(this.cameras[0]);
        const canvas = this.doc.querySelector("#viewport canvas"), r = canvas.getBoundingClientRect();
        const xy = { clientX: r.left + (v.x + 1) / 2 * r.width, clientY: r.top + (1 - v.y) / 2 * r.height, button: 0, pointerType: "mouse", pointerId: 1 };
        this.fire(canvas, "pointerdown", xy); this.fire(canvas, "pointerup", xy);
        return { ...at, aimed: o.userData.name };
      }
      case "grab": {
        const g = this.gizmos[0]; if (!g || !g.object || g.dragging) return at;
        this.grabbed = g.object.position.toArray(); g.axis = "X"; g.dragging = true;
        return { ...at, node: g.object.userData.name };
      }
      case "pull": {
        const g = this.gizmos[0]; if (!g || !g.object || !g.dragging) return at;
        g.object.position.fromArray(a.to ?? this.grabbed); g.dispatchEvent({ type: "change" }); g.dispatchEvent({ type: "objectChange" });
        return { ...at, node: g.object.userData.name, to: g.object.position.toArray() };
      }
      case "release": { const g = this.gizmos[0]; if (!g || !g.dragging) return at; const n = g.object?.userData.name ?? null, to = g.object?.position.toArray() ?? null; g.dragging = false; g.axis = null; return { ...at, node: n, to }; }
      case "hover": { const c = this.doc.querySelectorAll("#inspector-fields canvas"); if (!c.length) return at; const x = c[a.k % c.length]; this.fire(x, "mousemove", { clientX: a.fx * 299.9, clientY: a.fy * 99.9 }); const t = this.$("bin-info").textContent, h = this.$("bin-info").hidden; if (a.leave) this.fire(x, "mouseleave"); return { ...at, info: t, hidden: h }; }
    }
    throw new Error("unknown action " + a.do);
  }
  dump(full) {
    this.frame();
    const st = (id) => ({ text: this.$(id).textContent, cls: this.$(id).className });
    const out = { text: this.editor.text, doc: st("doc-status"), status: st("status"), progress: this.$("progress-fill").style.width, run: this.$("run-status").textContent, ...this.where(),
      reactive: this.$("reactive").checked, realtime: this.$("realtime").checked };
    out.plots = this.doc.querySelectorAll("#inspector-fields canvas").length;
    out.hints = this.doc.querySelectorAll("#inspector-fields .hint").map((h) => h.textContent);
    const lines = [], objects = [];
    const num = (l) => [...l].map((x) => Math.round(x * 1e6) / 1e6 + 0);
    const visible = (o) => { for (let n = o; n; n = n.parent) if (!n.visible) return false; return true; };
    for (const s of this.scenes) {
      s.traverse((o) => {
        for (let n = o; n; n = n.parent) if (this.gizmos.includes(n) || n.type?.startsWith("TransformControls")) return;
        if (o.isLine && !o.isLineSegments && !o.isLineLoop && o.geometry?.attributes?.color && o.geometry.attributes.position) {
          const a = o.geometry.attributes.position.array;
          lines.push(full ? { n: a.length / 3, p: num(a), c: num(o.geometry.attributes.color.array) } : a.length / 3);
        } else if (full && (o.isMesh || o.isLineSegments || o.isLineLoop || o.type === "GridHelper")) {
          let data = null;
          const par = o.geometry.parameters || {};
          const e = o.geometry.type === "BufferGeometry" || o.geometry.type === "EdgesGeometry" ? num(o.geometry.attributes.position.array).slice(0, 72) : null;
          const p = o.getWorldPosition(new THREE.Vector3()), q = o.getWorldQuaternion(new THREE.Quaternion());
          const im = o.material?.map?.image?._ctx?.image;
          if (im) data = { w: im.width, h: im.height, d: [...im.data] };
          objects.push({ type: o.type, geom: o.geometry.type, par: [par.width, par.height, par.depth, par.radius, par.radiusTop].map((x) => x === undefined ? null : x), e, pos: num(p.toArray()), quat: num(q.toArray()), visible: visible(o), opacity: o.material?.opacity ?? null, kind: o.userData?.kind ?? null, name: o.userData?.name ?? null, data, mapped: !!o.material?.map,
            emissive: o.material?.emissive?.getHex?.() ?? null });
        }
      });
    }
    out.lines = full ? lines : lines.length;
    out.gizmo = this.gizmos[0]?.object?.userData?.name ?? null;
    out.dragging = !!this.gizmos[0]?.dragging;
    if (full) {
      out.objects = objects;
      out.nodes = this.$("node-list").children.map((o) => o.value);
      out.items = this.$("item-select").options.map((o) => o.value);
      out.fields = this.rows().map((r) => ({ label: r.label, values: r.ctl.map((c) => (c.type === "checkbox" ? c.checked : c.value)), options: r.ctl[0].localName === "select" ? r.ctl[0].options.map((o) => o.value) : null }));
      out.chips = this.doc.querySelectorAll("#inspector-fields .chips span").map((h) => h.textContent);
      out.buttons = this.doc.querySelectorAll("#inspector-actions button").map((h) => h.textContent);
      out.canvases = this.doc.querySelectorAll("#inspector-fields canvas").map((c) => { const x = c.getContext("2d"); return { w: c.width, h: c.height, ops: x.ops.filter((o) => o[0] === "fillRect"), n: x.ops.length, image: x.image ? { w: x.image.width, h: x.image.height, d: [...x.image.data] } : null }; });
      out.storage = { ...this.storage };
      out.popover = !!this.$("popover");
    }
    return out;
  }
}

async function handle(m) {
  if (m.c === "boot") { await boot(m.dir); return { ok: true }; }
  if (m.c === "drop") { delete pages[m.page]; return {}; }
  let p = pages[m.page];
  if (m.c === "new") p = pages[m.page] = new Page(m.page, m.storage || {}, m.now);
  cur = p;
  p.t = m.now;
  let info = null;
  try {
    if (m.c === "new") await p.load();
    else if (m.c === "fetch") { const f = p.fetches[m.id]; delete p.fetches[m.id]; if (f) { if (m.fail) f.fail(new TypeError("Failed to fetch")); else f.ok(p.respond(m.status, m.body)); } }
    else if (m.c === "timer") { const t = p.timers[m.id]; if (t) { if (t.every === null) delete p.timers[m.id]; else p.effect({ e: "timer", id: m.id, delay: t.every / 1000 }); const r = typeof t.fn === "function" ? t.fn() : null; if (r && r.then) r.then(null, (x) => record(p, x)); } }
    else if (m.c === "ws") {
      const s = p.sockets[m.id];
      if (m.kind === "open") { s.readyState = 1; s.dispatchEvent(new p.dom.Ev("open")); }
      else if (m.kind === "message") { if (s.readyState === 1 || s.readyState === 2) s.dispatchEvent(new p.dom.Ev("message", { data: m.data })); }
      else if (m.kind === "close") { if (s.readyState !== 3) { s.readyState = 3; if (m.error) s.dispatchEvent(new p.dom.Ev("error")); s.dispatchEvent(new p.dom.Ev("close", { code: m.code ?? 1006, wasClean: false, reason: "" })); } }
    } else if (m.c === "act") info = p.act(m.a);
    else if (m.c !== "dump") throw new Error("command " + m.c);
  } catch (x) { record(p, x); }
  await settle();
  p.frame();
  if (m.c === "dump") info = p.dump(m.full);
  const out = { effects: p.effects, errors: p.errors, info };
  if (m.brief) out.brief = p.dump(false);
  p.effects = []; p.errors = [];
  return out;
}

const rl = readline.createInterface({ input: process.stdin });
let chain = Promise.resolve();
rl.on("line", (line) => {
  chain = chain.then(async () => {
    let out;
    try { out = await handle(JSON.parse(line)); } catch (x) { out = { fatal: String(x.stack || x) }; }
    process.stdout.write(JSON.stringify(out) + "\n");
  });
});
rl.on("close", () => chain.then(() => process.exit(0)));
