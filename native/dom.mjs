// A small document object model: enough of a browser for the studio page.
export function makeDom(env) {
  class Ev {
    constructor(type, init = {}) {
      Object.assign(this, init);
      this.type = type; this.bubbles = init.bubbles ?? false; this.cancelable = init.cancelable ?? true;
      this.defaultPrevented = false; this.stopped = false; this.now = false; this.target = null; this.currentTarget = null; this.timeStamp = env.now();
    }
    preventDefault() { this.defaultPrevented = true; }
    stopPropagation() { this.stopped = true; }
    stopImmediatePropagation() { this.stopped = this.now = true; }
    composedPath() { const p = []; for (let n = this.target; n; n = n.parentNode) p.push(n); return p; }
  }
  class Target {
    constructor() { this._l = {}; }
    addEventListener(type, fn, opt) {
      if (!fn) return;
      const l = this._l[type] = this._l[type] || [];
      const capture = typeof opt === "boolean" ? opt : !!opt?.capture;
      if (opt?.signal?.aborted) return;
      if (!l.some((x) => x.fn === fn && x.capture === capture)) l.push({ fn, once: !!opt?.once, capture });
      opt?.signal?.addEventListener?.("abort", () => this.removeEventListener(type, fn, opt.capture));
    }
    removeEventListener(type, fn, opt) {
      const capture = typeof opt === "boolean" ? opt : !!opt?.capture;
      if (this._l[type]) this._l[type] = this._l[type].filter((x) => x.fn !== fn || x.capture !== capture);
    }
    _fire(e) {
      e.currentTarget = this;
      for (const x of [...(this._l[e.type] || [])]) {
        if (!this._l[e.type].includes(x)) continue;
        if (x.once) this._l[e.type] = this._l[e.type].filter((y) => y !== x);
        env.guard(() => (typeof x.fn === "function" ? x.fn.call(this, e) : x.fn.handleEvent(e)));
        if (e.now) return;
      }
      const h = this["on" + e.type];
      if (typeof h === "function") env.guard(() => h.call(this, e));
    }
    dispatchEvent(e) {
      e.target = this;
      for (let n = this; n; n = e.bubbles ? n.parentNode || (n._isDocument ? env.window : null) : null) {
        n._fire(e);
        if (e.stopped) break;
      }
      return !e.defaultPrevented;
    }
  }
  class Node extends Target {
    constructor() { super(); this.parentNode = null; this.childNodes = []; }
    get parentElement() { return this.parentNode instanceof El ? this.parentNode : null; }
    get ownerDocument() { return document; }
    get isConnected() { let n = this; while (n.parentNode) n = n.parentNode; return n === document; }
    get children() { return this.childNodes.filter((c) => c instanceof El); }
    get childElementCount() { return this.children.length; }
    get firstChild() { return this.childNodes[0] || null; }
    get lastChild() { return this.childNodes[this.childNodes.length - 1] || null; }
    get firstElementChild() { return this.children[0] || null; }
    get lastElementChild() { const c = this.children; return c[c.length - 1] || null; }
    _sib(d, els) { const l = this.parentNode ? (els ? this.parentNode.children : this.parentNode.childNodes) : []; return l[l.indexOf(this) + d] || null; }
    get nextSibling() { return this._sib(1, false); }
    get previousSibling() { return this._sib(-1, false); }
    get nextElementSibling() { return this._sib(1, true); }
    get previousElementSibling() { return this._sib(-1, true); }
    hasChildNodes() { return this.childNodes.length > 0; }
    contains(n) { for (; n; n = n.parentNode) if (n === this) return true; return false; }
    _in(list, at) {
      const flat = [];
      for (let n of list) {
        if (!(n instanceof Node)) n = new Text(String(n));
        if (n instanceof Fragment) { flat.push(...n.childNodes); n.childNodes = []; } else flat.push(n);
      }
      for (const n of flat) { if (n.parentNode) { const i = n.parentNode.childNodes.indexOf(n); if (n.parentNode === this && i < at) at--; n.parentNode.childNodes.splice(i, 1); } n.parentNode = this; }
      this.childNodes.splice(at, 0, ...flat);
    }
    append(...l) { this._in(l, this.childNodes.length); }
    prepend(...l) { this._in(l, 0); }
    appendChild(n) { this._in([n], this.childNodes.length); return n; }
    insertBefore(n, ref) { this._in([n], ref ? this.childNodes.indexOf(ref) : this.childNodes.length); return n; }
    removeChild(n) { const i = this.childNodes.indexOf(n); if (i < 0) throw new Error("NotFoundError"); this.childNodes.splice(i, 1); n.parentNode = null; return n; }
    replaceChild(n, old) { this.insertBefore(n, old); this.removeChild(old); return old; }
    replaceChildren(...l) { for (const c of [...this.childNodes]) this.removeChild(c); this.append(...l); }
    remove() { if (this.parentNode) this.parentNode.removeChild(this); }
    before(...l) { this.parentNode._in(l, this.parentNode.childNodes.indexOf(this)); }
    after(...l) { this.parentNode._in(l, this.parentNode.childNodes.indexOf(this) + 1); }
    replaceWith(...l) { this.before(...l); this.remove(); }
    get textContent() { return this.childNodes.map((c) => c.textContent).join(""); }
    set textContent(t) { this.replaceChildren(); if (t !== null && t !== undefined && String(t) !== "") this.appendChild(new Text(String(t))); }
    _all(out = []) { for (const c of this.children) { out.push(c); c._all(out); } return out; }
    querySelectorAll(s) { const m = selector(s); return this._all().filter((e) => m(e, this)); }
    querySelector(s) { return this.querySelectorAll(s)[0] || null; }
    getElementsByTagName(t) { return this._all().filter((e) => t === "*" || e.localName === t.toLowerCase()); }
    getElementsByClassName(t) { return this._all().filter((e) => e.classList.contains(t)); }
  }
  class Text extends Node {
    constructor(t) { super(); this.data = t; }
    get textContent() { return this.data; }
    set textContent(t) { this.data = String(t); }
    get nodeValue() { return this.data; }
    set nodeValue(t) { this.data = String(t); }
    get nodeType() { return 3; }
  }
  class Fragment extends Node { get nodeType() { return 11; } }
  const VOID = new Set(["input", "br", "hr", "img", "link", "meta"]);
  const camel = (s) => s.replace(/-([a-z])/g, (_, c) => c.toUpperCase());
  const kebab = (s) => s.replace(/[A-Z]/g, (c) => "-" + c.toLowerCase());
  function makeStyle() {
    const o = { setProperty(k, v) { o[camel(k)] = v; }, getPropertyValue(k) { return o[camel(k)] ?? ""; }, removeProperty(k) { delete o[camel(k)]; } };
    return new Proxy(o, {
      set(t, k, v) {
        if (k === "cssText") for (const part of String(v).split(";")) { const i = part.indexOf(":"); if (i > 0) t[camel(part.slice(0, i).trim())] = part.slice(i + 1).trim(); }
        else t[k] = String(v);
        return true;
      },
      get(t, k) { return t[k] ?? (typeof k === "string" ? "" : undefined); },
    });
  }
  class El extends Node {
    constructor(tag) {
      super();
      this.localName = tag.toLowerCase(); this.attributes = {}; this.style = makeStyle();
      this._value = null; this._checked = null; this._sel = null;
      const el = this;
      this.dataset = new Proxy({}, {
        get: (_, k) => el.attributes["data-" + kebab(String(k))],
        set: (_, k, v) => { el.attributes["data-" + kebab(String(k))] = String(v); return true; },
        has: (_, k) => "data-" + kebab(String(k)) in el.attributes,
        deleteProperty: (_, k) => { delete el.attributes["data-" + kebab(String(k))]; return true; },
      });
      this.classList = {
        get list() { return (el.attributes.class || "").split(/\s+/).filter(Boolean); },
        contains(c) { return this.list.includes(c); },
        add(...c) { el.attributes.class = [...new Set([...this.list, ...c])].join(" "); },
        remove(...c) { el.attributes.class = this.list.filter((x) => !c.includes(x)).join(" "); },
        toggle(c, on) { const w = on === undefined ? !this.contains(c) : !!on; w ? this.add(c) : this.remove(c); return w; },
        replace(a, b) { if (this.contains(a)) { this.remove(a); this.add(b); } },
      };
      if (this.localName === "canvas") { this.width = 300; this.height = 150; }
    }
    get nodeType() { return 1; }
    get tagName() { return this.localName.toUpperCase(); }
    get nodeName() { return this.tagName; }
    setAttribute(k, v) { this.attributes[k.toLowerCase()] = String(v); }
    getAttribute(k) { return this.attributes[k.toLowerCase()] ?? null; }
    hasAttribute(k) { return k.toLowerCase() in this.attributes; }
    removeAttribute(k) { delete this.attributes[k.toLowerCase()]; }
    toggleAttribute(k, on) { const w = on === undefined ? !this.hasAttribute(k) : on; w ? this.setAttribute(k, "") : this.removeAttribute(k); return w; }
    get id() { return this.attributes.id || ""; }
    set id(v) { this.attributes.id = String(v); }
    get className() { return this.attributes.class || ""; }
    set className(v) { this.attributes.class = String(v); }
    get innerText() { return this.textContent; }
    set innerText(v) { this.textContent = v; }
    get innerHTML() { return this.childNodes.map(serial).join(""); }
    set innerHTML(v) { this.replaceChildren(...parse(String(v))); }
    get outerHTML() { return serial(this); }
    insertAdjacentHTML(where, html) { this.insertAdjacentElement(where, parse(html)); }
    insertAdjacentText(where, t) { this.insertAdjacentElement(where, [new Text(t)]); }
    insertAdjacentElement(where, n) {
      const l = Array.isArray(n) ? n : [n];
      ({ beforebegin: () => this.before(...l), afterbegin: () => this.prepend(...l), beforeend: () => this.append(...l), afterend: () => this.after(...l) })[where.toLowerCase()]();
      return n;
    }
    matches(s) { return selector(s)(this, document); }
    closest(s) { const m = selector(s); for (let n = this; n instanceof El; n = n.parentNode) if (m(n, document)) return n; return null; }
    getBoundingClientRect() { const w = this.localName === "canvas" ? 300 : 800, h = this.localName === "canvas" ? 100 : 600; return { left: 0, top: 0, right: w, bottom: h, width: w, height: h, x: 0, y: 0 }; }
    get clientWidth() { return 800; }
    get clientHeight() { return 600; }
    get offsetWidth() { return 800; }
    get offsetHeight() { return 600; }
    focus() { document.activeElement = this; }
    blur() { document.activeElement = document.body; }
    scrollIntoView() {}
    setPointerCapture() {} releasePointerCapture() {}
    click() {
      if (this.disabled) return;
      const box = this.localName === "input" && this.type === "checkbox";
      if (box) this.checked = !this.checked;
      this.dispatchEvent(new Ev("click", { bubbles: true, clientX: 1, clientY: 1, button: 0 }));
      if (box) { this.dispatchEvent(new Ev("input", { bubbles: true })); this.dispatchEvent(new Ev("change", { bubbles: true })); }
    }
    // form controls
    get type() { return this.attributes.type || (this.localName === "input" ? "text" : this.localName === "button" ? "submit" : this.localName === "select" ? "select-one" : ""); }
    set type(v) { this.attributes.type = String(v); }
    get options() { return this._all().filter((e) => e.localName === "option"); }
    get length() { return this.options.length; }
    add(o) { this.appendChild(o); }
    get selectedIndex() { const o = this.options; let k = -1; o.forEach((x, i) => { if (x._sel ?? x.hasAttribute("selected")) k = i; }); return k < 0 ? (o.length ? this._none ? -1 : 0 : -1) : k; }
    set selectedIndex(k) { this._none = k < 0; this.options.forEach((x, i) => { x._sel = i === k; }); }
    get selectedOptions() { const o = this.options[this.selectedIndex]; return o ? [o] : []; }
    get selected() { const s = this.closest("select"); return s ? s.options[s.selectedIndex] === this : !!(this._sel ?? this.hasAttribute("selected")); }
    set selected(v) { const s = this.closest("select"); if (s && v) for (const o of s.options) o._sel = false; this._sel = !!v; }
    get text() { return this.textContent; }
    set text(v) { this.textContent = v; }
    get value() {
      if (this.localName === "select") { const o = this.options[this.selectedIndex]; return o ? o.value : ""; }
      if (this.localName === "option") return this.attributes.value ?? this.textContent;
      if (this.localName === "textarea") return this._value ?? this.textContent;
      return this._value ?? this.attributes.value ?? (this.type === "checkbox" ? "on" : "");
    }
    set value(v) {
      if (this.localName === "select") { const i = this.options.findIndex((o) => o.value === String(v)); this.selectedIndex = i; }
      else if (this.localName === "option") this.attributes.value = String(v);
      else {
        v = v === null ? "" : String(v);
        if (this.localName === "input" && this.type === "number" && v !== "" && !/^[-+]?(\d+\.?\d*|\.\d+)(e[-+]?\d+)?$/i.test(v)) v = "";
        this._value = v;
      }
    }
    get valueAsNumber() { return this.value === "" ? NaN : Number(this.value); }
    get checked() { return this._checked ?? this.hasAttribute("checked"); }
    set checked(v) { this._checked = !!v; }
    get hidden() { return this.hasAttribute("hidden"); }
    set hidden(v) { this.toggleAttribute("hidden", !!v); }
    get disabled() { return this.hasAttribute("disabled"); }
    set disabled(v) { this.toggleAttribute("disabled", !!v); }
    get title() { return this.attributes.title || ""; }
    set title(v) { this.attributes.title = String(v); }
    get labels() { return []; }
    getContext() { return this._ctx = this._ctx || context(this); }
    toDataURL() { return "data:,"; }
  }
  for (const k of ["name", "placeholder", "step", "min", "max", "htmlFor", "href", "src", "readOnly", "tabIndex", "list", "draggable", "spellcheck"])
    Object.defineProperty(El.prototype, k, { get() { return this.attributes[k.toLowerCase()] ?? ""; }, set(v) { this.attributes[k.toLowerCase()] = String(v); }, configurable: true });

  const ENT = { amp: "&", lt: "<", gt: ">", quot: '"', nbsp: "\u00a0", "#39": "'" };
  const unent = (s) => s.replace(/&(#?\w+);/g, (m, k) => ENT[k] ?? m);
  const serial = (n) => n instanceof Text ? n.data.replace(/[&<>]/g, (c) => ({ "&": "&amp;", "<": "&lt;", ">": "&gt;" })[c])
    : `<${n.localName}${Object.entries(n.attributes).map(([k, v]) => ` ${k}="${v}"`).join("")}>` + (VOID.has(n.localName) ? "" : n.childNodes.map(serial).join("") + `</${n.localName}>`);
  function parse(html) {
    const root = new Fragment(); let at = root;
    const re = /<!--[\s\S]*?-->|<!DOCTYPE[^>]*>|<\/([a-z][\w-]*)\s*>|<([a-z][\w-]*)((?:\s+[^\s=>/]+(?:\s*=\s*(?:"[^"]*"|'[^']*'|[^\s>]+))?)*)\s*\/?>|([^<]+)|</gi;
    let m;
    while ((m = re.exec(html))) {
      if (m[4] !== undefined || m[0] === "<") at.appendChild(new Text(unent(m[4] ?? "<")));
      else if (m[2]) {
        const el = new El(m[2]);
        for (const a of (m[3] || "").matchAll(/([^\s=]+)(?:\s*=\s*(?:"([^"]*)"|'([^']*)'|([^\s>]+)))?/g)) el.attributes[a[1].toLowerCase()] = unent(a[2] ?? a[3] ?? a[4] ?? "");
        at.appendChild(el);
        if (["script", "style", "textarea"].includes(el.localName)) {
          const end = html.toLowerCase().indexOf(`</${el.localName}`, re.lastIndex);
          if (end > re.lastIndex) el.appendChild(new Text(html.slice(re.lastIndex, end)));
          re.lastIndex = end < 0 ? html.length : end;
          at = el;
        } else if (!VOID.has(el.localName)) at = el;
      } else if (m[1]) {
        const tag = m[1].toLowerCase(); let n = at;
        while (n !== root && n.localName !== tag) n = n.parentNode;
        if (n !== root) at = n.parentNode;
      }
    }
    const out = root.childNodes; root.childNodes = []; for (const n of out) n.parentNode = null;
    return out;
  }
  function selector(s) {
    const alts = s.split(",").map((alt) => {
      const parts = alt.trim().replace(/\s*>\s*/g, " > ").split(/\s+/);
      return parts.map((p) => p === ">" ? ">" : simple(p));
    });
    return (e, scope) => alts.some((parts) => walk(e, parts, parts.length - 1));
    function walk(e, parts, i) {
      if (!(e instanceof El) || !parts[i](e)) return false;
      if (i === 0) return true;
      if (parts[i - 1] === ">") return walk(e.parentNode, parts, i - 2);
      for (let n = e.parentNode; n; n = n.parentNode) if (walk(n, parts, i - 1)) return true;
      return false;
    }
    function simple(p) {
      const tests = [];
      for (const m of p.matchAll(/\*|^[\w-]+|#[\w-]+|\.[\w-]+|\[([\w-]+)(?:([~^$*]?=)"?'?([^\]"']*)"?'?)?\]|:([\w-]+)(?:\(([^)]*)\))?/g)) {
        const t = m[0];
        if (t === "*") continue;
        if (t[0] === "#") tests.push((e) => e.id === t.slice(1));
        else if (t[0] === ".") tests.push((e) => e.classList.contains(t.slice(1)));
        else if (t[0] === "[") tests.push((e) => { const v = e.getAttribute(m[1]); return v !== null && (m[2] === undefined || (m[2] === "=" ? v === m[3] : m[2] === "^=" ? v.startsWith(m[3]) : m[2] === "$=" ? v.endsWith(m[3]) : v.includes(m[3]))); });
        else if (t[0] === ":") {
          if (m[4] === "not") { const q = selector(m[5]); tests.push((e) => !q(e)); }
          else if (m[4] === "checked") tests.push((e) => e.checked);
          else if (m[4] === "first-child") tests.push((e) => !e.previousElementSibling);
          else if (m[4] === "last-child") tests.push((e) => !e.nextElementSibling);
          else throw new Error("selector " + p);
        } else tests.push((e) => e.localName === t.toLowerCase());
      }
      return (e) => tests.every((f) => f(e));
    }
  }
  // what was drawn on a canvas since it was last cleared as a whole
  function context(canvas) {
    const c = { canvas, ops: [], image: null };
    const log = (k) => (...a) => { c.ops.push([k, c.fillStyle, ...a]); if (c.ops.length > 5000) c.ops.splice(0, 1000); };
    return new Proxy(c, {
      get(t, k) {
        if (k in t) return t[k];
        if (typeof k !== "string") return undefined;
        if (k === "clearRect") return (x, y, w, h) => { if (x <= 0 && y <= 0 && w >= canvas.width && h >= canvas.height) { t.ops = []; t.image = null; } };
        if (k === "putImageData") return (im) => { t.image = im; };
        if (k === "drawImage") return (src, ...a) => { t.ops.push(["drawImage", null, ...a]); t.image = src._ctx?.image ?? null; };
        if (k === "createImageData") return (w, h) => new env.ImageData(w, h);
        if (k === "measureText") return () => ({ width: 10 });
        if (/^(fill|stroke|begin|close|move|line|arc|rect|save|restore|translate|scale|rotate|set|clip|quad|bezier|ellipse)/.test(k) && k !== "fillStyle" && k !== "strokeStyle" && k !== "lineWidth") return log(k);
        return undefined;
      },
      set(t, k, v) { t[k] = v; return true; },
    });
  }
  const document = new (class Document extends Node {
    _isDocument = true;
    get nodeType() { return 9; }
    get documentElement() { return this.children[0]; }
    get body() { return this.querySelector("body"); }
    get head() { return this.querySelector("head"); }
    createElement(t) { return new El(t); }
    createElementNS(_, t) { return new El(t); }
    createTextNode(t) { return new Text(String(t)); }
    createDocumentFragment() { return new Fragment(); }
    getElementById(id) { return this._all().find((e) => e.id === id) || null; }
    get readyState() { return "interactive"; }
    get visibilityState() { return "visible"; }
    get hidden() { return false; }
  })();
  return { document, parse, El, Text, Node, Fragment, Ev, Target, context };
}
