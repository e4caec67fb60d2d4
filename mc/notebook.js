// A small DOM that executes the scripts of notebook outputs and explores click sequences.
// Reads one JSON request per line, writes one JSON answer per line.
"use strict";
const vm = require("vm");
const readline = require("readline");

function splitTop(s, seps) {
  const out = [];
  let cur = "", depth = 0;
  for (const c of s) {
    if (c === "[" || c === "(") depth++;
    if (c === "]" || c === ")") depth--;
    if (depth === 0 && seps.includes(c)) { out.push([cur, c]); cur = ""; } else cur += c;
  }
  out.push([cur, ""]);
  return out;
}

const selCache = new Map();
function parseSelector(sel) {
  if (selCache.has(sel)) return selCache.get(sel);
  const alts = splitTop(sel, ",").map(([alt]) => {
    alt = alt.trim().replace(/\s*>\s*/g, ">");
    if (!alt) throw new SyntaxError("selector " + sel);
    const parts = [];
    let comb = " ";
    for (const [p, c] of splitTop(alt, " >")) {
      if (p !== "") parts.push([comb, parseCompound(p)]);
      if (c === ">" || p !== "") comb = c;
    }
    return parts;
  });
  selCache.set(sel, alts);
  return alts;
}

function parseCompound(s) {
  const tests = [];
  let rest = s;
  while (rest) {
    let m;
    if ((m = /^\*/.exec(rest))) { /* anything */ }
    else if ((m = /^#([\w-]+)/.exec(rest))) { const v = m[1]; tests.push(e => e.getAttribute("id") === v); }
    else if ((m = /^\.([\w-]+)/.exec(rest))) { const v = m[1]; tests.push(e => e.classes().includes(v)); }
    else if ((m = /^\[([\w-]+)(?:([~^$*|]?=)(?:"([^"]*)"|'([^']*)'|([^\]"']*)))?\]/.exec(rest))) {
      const [, name, op] = m, v = m[3] !== undefined ? m[3] : m[4] !== undefined ? m[4] : m[5];
      tests.push(e => {
        const a = e.getAttribute(name);
        if (a === null) return false;
        if (!op) return true;
        if (op === "=") return a === v;
        if (op === "^=") return a.startsWith(v);
        if (op === "$=") return a.endsWith(v);
        if (op === "*=") return a.includes(v);
        return a.split(/\s+/).includes(v);
      });
    } else if ((m = /^:not\(([^)]*)\)/.exec(rest))) { const t = parseCompound(m[1]); tests.push(e => !t.every(f => f(e))); }
    else if ((m = /^:first-child/.exec(rest))) tests.push(e => e.parentNode && e.parentNode.children[0] === e);
    else if ((m = /^:last-child/.exec(rest))) tests.push(e => e.parentNode && e.parentNode.children.slice(-1)[0] === e);
    else if ((m = /^:nth-child\((\d+)\)/.exec(rest))) { const k = +m[1]; tests.push(e => e.parentNode && e.parentNode.children[k - 1] === e); }
    else if ((m = /^[\w-]+/.exec(rest))) { const v = m[0].toLowerCase(); tests.push(e => e.tag === v); }
    else throw new SyntaxError("selector " + s);
    rest = rest.slice(m[0].length);
  }
  return tests;
}

function matchParts(e, parts, i) {
  if (!parts[i][1].every(f => f(e))) return false;
  if (i === 0) return true;
  const comb = parts[i][0];
  for (let a = e.parentNode; a && a.tag !== "#document"; a = a.parentNode) {
    if (matchParts(a, parts, i - 1)) return true;
    if (comb === ">") return false;
  }
  return false;
}

function matches(e, sel) {
  return parseSelector(sel).some(parts => matchParts(e, parts, parts.length - 1));
}

class NodeList extends Array {
  item(i) { return this[i] === undefined ? null : this[i]; }
}

class Element {
  constructor(tag, attrs) {
    this.tag = tag;
    this.attrs = Object.assign(Object.create(null), attrs);
    this.childNodes = [];
    this.parentNode = null;
    this.listeners = {};
    this.disabled = "disabled" in this.attrs;
    this.hidden = "hidden" in this.attrs;
    const self = this;
    this.style = {
      setProperty(k, v) { this[k] = v; }, removeProperty(k) { this[k] = ""; },
    };
    for (const part of (this.attrs.style || "").split(";")) {
      const i = part.indexOf(":");
      if (i > 0) this.style[part.slice(0, i).trim()] = part.slice(i + 1).trim();
    }
    this.dataset = new Proxy({}, {
      get: (t, k) => self.attrs["data-" + String(k).replace(/[A-Z]/g, c => "-" + c.toLowerCase())],
      set: (t, k, v) => { self.attrs["data-" + String(k).replace(/[A-Z]/g, c => "-" + c.toLowerCase())] = String(v); return true; },
    });
    this.classList = {
      add(...c) { self.setClasses([...new Set([...self.classes(), ...c])]); },
      remove(...c) { self.setClasses(self.classes().filter(x => !c.includes(x))); },
      contains(c) { return self.classes().includes(c); },
      toggle(c, f) {
        const on = f === undefined ? !self.classes().includes(c) : !!f;
        if (on) this.add(c); else this.remove(c);
        return on;
      },
    };
  }
  classes() { return (this.attrs.class || "").split(/\s+/).filter(x => x); }
  setClasses(c) { this.attrs.class = c.join(" "); }
  get className() { return this.attrs.class || ""; }
  set className(v) { this.attrs.class = String(v); }
  get id() { return this.attrs.id || ""; }
  set id(v) { this.attrs.id = String(v); }
  get tagName() { return this.tag.toUpperCase(); }
  get nodeType() { return 1; }
  get parentElement() { return this.parentNode; }
  get children() { return NodeList.from(this.childNodes.filter(c => c instanceof Element)); }
  get firstElementChild() { return this.children[0] || null; }
  get lastElementChild() { return this.children.slice(-1)[0] || null; }
  get nextElementSibling() { const s = this.parentNode.children; return s[s.indexOf(this) + 1] || null; }
  get previousElementSibling() { const s = this.parentNode.children; return s[s.indexOf(this) - 1] || null; }
  getAttribute(n) { return n in this.attrs ? this.attrs[n] : null; }
  hasAttribute(n) { return n in this.attrs; }
  setAttribute(n, v) { this.attrs[n] = String(v); if (n === "disabled") this.disabled = true; if (n === "hidden") this.hidden = true; }
  removeAttribute(n) { delete this.attrs[n]; if (n === "disabled") this.disabled = false; if (n === "hidden") this.hidden = false; }
  toggleAttribute(n, f) { const on = f === undefined ? !this.hasAttribute(n) : f; if (on) this.setAttribute(n, ""); else this.removeAttribute(n); return on; }
  get textContent() { return this.childNodes.map(c => c instanceof Element ? c.textContent : c).join(""); }
  set textContent(v) { this.childNodes = [String(v)]; }
  get innerText() { return this.textContent; }
  set innerText(v) { this.textContent = v; }
  get innerHTML() { return this.textContent; }
  set innerHTML(v) { if (/[<&]/.test(v)) throw new Error("innerHTML with markup"); this.textContent = v; }
  *walk() { for (const c of this.childNodes) if (c instanceof Element) { yield c; yield* c.walk(); } }
  querySelectorAll(sel) { return NodeList.from([...this.walk()].filter(e => matches(e, sel))); }
  querySelector(sel) { return this.querySelectorAll(sel)[0] || null; }
  getElementsByClassName(c) { return NodeList.from([...this.walk()].filter(e => c.split(/\s+/).every(x => e.classes().includes(x)))); }
  getElementsByTagName(t) { return NodeList.from([...this.walk()].filter(e => t === "*" || e.tag === t.toLowerCase())); }
  getElementById(i) { return [...this.walk()].find(e => e.getAttribute("id") === i) || null; }
  matches(sel) { return matches(this, sel); }
  closest(sel) { for (let e = this; e && e.tag !== "#document"; e = e.parentNode) if (matches(e, sel)) return e; return null; }
  contains(o) { for (let e = o; e; e = e.parentNode) if (e === this) return true; return false; }
  addEventListener(t, f) { (this.listeners[t] = this.listeners[t] || []).push(f); }
  removeEventListener(t, f) { this.listeners[t] = (this.listeners[t] || []).filter(x => x !== f); }
  dispatchEvent(ev) {
    ev.target = this;
    for (let e = this; e; e = e.parentNode) {
      ev.currentTarget = e;
      for (const f of [...(e.listeners[ev.type] || [])]) f.call(e, ev);
      const h = e["on" + ev.type];
      if (typeof h === "function") h.call(e, ev);
      else if (e.attrs["on" + ev.type]) ev.run(e, e.attrs["on" + ev.type]);
      if (ev.stopped) break;
    }
    return true;
  }
  click() { if (!this.disabled) this.dispatchEvent(new FakeEvent("click")); }
  focus() {} blur() {}
}

class FakeEvent {
  constructor(type) { this.type = type; this.stopped = false; }
  preventDefault() {} stopPropagation() { this.stopped = true; }
}

function build(tree) {
  if (typeof tree === "string") return tree;
  const [tag, attrs, children] = tree;
  const e = new Element(tag, attrs);
  for (const c of children) {
    const n = build(c);
    if (n instanceof Element) n.parentNode = e;
    e.childNodes.push(n);
  }
  return e;
}

function cssRules(doc) {
  const rules = [];
  for (const s of doc.getElementsByTagName("style")) {
    for (const m of s.textContent.replace(/\/\*[^]*?\*\//g, "").matchAll(/([^{}]+)\{([^{}]*)\}/g)) {
      for (const d of m[2].split(";")) {
        const i = d.indexOf(":");
        const k = i > 0 ? d.slice(0, i).trim() : "";
        if (k === "display" || k === "visibility") rules.push([m[1].trim(), k, d.slice(i + 1).replace("!important", "").trim()]);
      }
    }
  }
  return rules;
}

function shown(e, rules) {
  for (; e && e.tag !== "#document"; e = e.parentNode) {
    let display = e.hidden ? "none" : "", visibility = "";
    for (const [sel, k, v] of rules) {
      let ok = false;
      try { ok = matches(e, sel); } catch (err) { ok = false; }
      if (ok) { if (k === "display") display = v; else visibility = v; }
    }
    if (e.style.display) display = e.style.display;
    if (e.style.visibility) visibility = e.style.visibility;
    if (display === "none" || visibility === "hidden") return false;
  }
  return true;
}

function start(req) {
  const doc = new Element("#document", {});
  const body = new Element("body", {});
  body.parentNode = doc;
  doc.childNodes.push(body);
  doc.body = body;
  doc.readyState = "complete";
  const ctx = vm.createContext({ document: doc, console: { log() {}, error() {} } });
  ctx.window = ctx;
  ctx.self = ctx;
  ctx.globalThis = ctx;
  ctx.setTimeout = f => { f(); };
  ctx.requestAnimationFrame = f => { f(); };
  const outs = req.outputs.map(build);
  const run = out => {
    for (const s of out.getElementsByTagName("script")) vm.runInContext(s.textContent, ctx);
  };
  for (const out of outs) {
    out.parentNode = body;
    body.childNodes.push(out);
    if (req.incremental) run(out);
  }
  if (!req.incremental) for (const out of outs) run(out);
  const rules = cssRules(doc);
  return { doc, outs, rules, ctx };
}

function observe(w) {
  return w.outs.map(out => {
    const pages = [...out.walk()].filter(e => "data-mc-page" in e.attrs);
    const buttons = out.getElementsByTagName("button");
    const text = e => e instanceof Element ? ("data-mc-page" in e.attrs || ["button", "script", "style"].includes(e.tag)
      || !shown(e, w.rules) ? "" : e.childNodes.map(text).join("")) : e;
    return [pages.map((p, i) => shown(p, w.rules) ? i + 1 : 0).filter(x => x),
      buttons.map(b => b.disabled), text(out).trim()];
  });
}

function buttonsOf(w) {
  const res = [];
  w.outs.forEach((out, i) => out.getElementsByTagName("button").forEach((b, j) => res.push([i, j, b])));
  return res;
}

const started = [];
function click(w, b) {
  if (b.disabled) return;
  const ev = new FakeEvent("click");
  ev.run = (e, code) => { w.ctx.__e = e; vm.runInContext("(function(){" + code + "}).call(__e)", w.ctx); };
  b.dispatchEvent(ev);
}

function explore(req) {
  const first = start(req);
  const names = buttonsOf(first).map(([i, j]) => [i, j]);
  const n = names.length;
  const res = { buttons: names, initial: observe(first), traces: [] };
  if (n === 0) return res;
  for (const idx of req.walks || []) {
    const w = start(req);
    const bs = buttonsOf(w);
    const obs = [];
    for (const k of idx) { click(w, bs[k % n][2]); obs.push(observe(w)); }
    res.traces.push([idx.map(k => k % n), obs]);
  }
  const total = req.walks ? 0 : Math.pow(n, req.depth);
  for (let code = 0; code < total; code++) {
    const w = start(req);
    const bs = buttonsOf(w);
    let c = code;
    const seq = [], obs = [];
    // the observations of a prefix have been made with the first sequence that has it
    const idx = [];
    for (let k = 0; k < req.depth; k++) { idx.push(c % n); c = Math.floor(c / n); }
    idx.reverse();
    let fresh = req.depth;
    while (fresh > 0 && idx.slice(fresh).every(v => v === 0)) fresh--;
    for (let k = 0; k < req.depth; k++) {
      click(w, bs[idx[k]][2]);
      seq.push(idx[k]);
      obs.push(k >= fresh - 1 || fresh === 0 ? observe(w) : null);
    }
    res.traces.push([seq, obs]);
  }
  return res;
}

readline.createInterface({ input: process.stdin }).on("line", line => {
  let ans;
  try { ans = explore(JSON.parse(line)); } catch (e) { ans = { error: String(e && e.stack || e).slice(0, 2000) }; }
  process.stdout.write(JSON.stringify(ans) + "\n");
});
