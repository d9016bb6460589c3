// Plays one life of the extension in a stand-in for VS Code: nothing is started, written or opened, calls are recorded.
"use strict";
const Module = require("module");
const realFs = require("fs");
const path = require("path");
const readline = require("readline");
const vm = require("vm");

const source = process.argv[2];
const ts = require(process.argv[3]);
const code = ts.transpileModule(realFs.readFileSync(source, "utf8"), {
    compilerOptions: { module: ts.ModuleKind.CommonJS, target: ts.ScriptTarget.ES2019, esModuleInterop: false },
    reportDiagnostics: true,
});
if (code.diagnostics && code.diagnostics.length) {
    console.log(JSON.stringify({ broken: code.diagnostics.map((d) => String(d.messageText)) }));
    process.exit(3);
}

const realPlatform = process.platform;
let rejections = [];
process.on("unhandledRejection", (e) => rejections.push(String(e)));
console.log = () => {};

async function settle() {
    for (let i = 0; i < 12; ++i) await new Promise((r) => setImmediate(r));
}

async function play(c) {
    let seen = [];
    const rec = (k, v) => seen.push([k, v]);
    const defaults = { "ncsetting.file.path": "", "debug.log.path": "", "calculate.pathtime.enable": true };
    const cfg = { global: Object.assign({}, c.global), workspace: Object.assign({}, c.workspace) };
    const effective = (k) => (k in cfg.workspace ? cfg.workspace[k] : k in cfg.global ? cfg.global[k] : defaults[k]);
    const files = Object.assign({}, c.files);
    const listeners = [];
    const watchers = [];
    const registered = {};
    const answers = { warn: [], dialog: [] };
    let execDone = null;
    const fire = (key) => {
        for (const f of listeners.slice()) f({ affectsConfiguration: (s) => key === s || key.startsWith(s + ".") });
    };
    const set = (target, key, value) => {
        const before = JSON.stringify(cfg[target][key]);
        if (value === undefined || value === null) delete cfg[target][key];
        else cfg[target][key] = value;
        if (before !== JSON.stringify(cfg[target][key])) fire("ncproj." + key);
    };
    const event = () => {
        const l = [];
        const f = (h, self) => {
            l.push(self ? h.bind(self) : h);
            return { dispose() { l.length = 0; } };
        };
        f.fire = (x) => l.slice().forEach((h) => h(x));
        return f;
    };
    const vscode = {
        ConfigurationTarget: { Global: 1, Workspace: 2, WorkspaceFolder: 3 },
        StatusBarAlignment: { Left: 1, Right: 2 },
        Uri: { file: (p) => ({ scheme: "file", fsPath: p, path: p }) },
        RelativePattern: class { constructor(base, pattern) { this.base = base.fsPath || base; this.pattern = pattern; } },
        workspace: {
            getConfiguration: (section) => ({
                get: (k, d) => {
                    const full = section ? section + "." + k : k;
                    const v = full.startsWith("ncproj.") ? effective(full.substr(7)) : undefined;
                    return v === undefined ? d : v;
                },
                update: (k, v, target) => Promise.resolve().then(() => {
                    const t = target === 1 || target === true ? "global" : "workspace";
                    rec("update", [k, v, t]);
                    if (answers.updateFails) throw new Error("not writable");
                    set(t, k, v);
                }),
            }),
            onDidChangeConfiguration: (h) => { listeners.push(h); return { dispose() {} }; },
            createFileSystemWatcher: (pattern, ic, ih, id) => {
                const w = { pattern, ignore: { create: !!ic, change: !!ih, delete: !!id }, create: event(), change: event(), delete: event() };
                watchers.push(w);
                return { onDidCreate: w.create, onDidChange: w.change, onDidDelete: w.delete, dispose() {} };
            },
            openTextDocument: (o) => { rec("document", o); return Promise.resolve(o); },
        },
        window: {
            createOutputChannel: () => ({ appendLine: (s) => rec("output", s), append: (s) => rec("output", s), show: () => rec("channel", true), dispose() {} }),
            createStatusBarItem: () => {
                const item = { shown: false, show() { this.shown = true; }, hide() { this.shown = false; }, dispose() {} };
                status = item;
                return item;
            },
            showWarningMessage: (m, ...items) => {
                items = items.filter((i) => typeof i === "string");
                const a = answers.warn.shift();
                const given = a === undefined || a === null ? undefined : items.find((i) => i.startsWith(a)) || items.find((i) => i.includes(a));
                rec("warn", [m, items, given === undefined ? null : given]);
                return Promise.resolve(given);
            },
            showInformationMessage: (m) => { rec("info", m); return Promise.resolve(undefined); },
            showErrorMessage: (m) => { rec("error", m); return Promise.resolve(undefined); },
            showOpenDialog: (o) => {
                rec("dialog", o);
                const a = answers.dialog.shift();
                return Promise.resolve(a === undefined || a === null ? undefined : a.map((p) => vscode.Uri.file(p)));
            },
            showTextDocument: (d) => { rec("show", d); return Promise.resolve({}); },
        },
        commands: {
            registerCommand: (n, f) => { registered[n] = f; return { dispose() {} }; },
            executeCommand: (n, ...a) => {
                rec("execute", n);
                return Promise.resolve(registered[n] ? registered[n](...a) : undefined);
            },
        },
    };
    let status = {};
    class LanguageClient {
        constructor(...a) {
            if (typeof a[1] === "string") a.shift();
            rec("client", { server: a[1], client: a[2] });
        }
        onDidChangeState() { return { dispose() {} }; }
        start() { rec("start", true); return c.startFails ? Promise.reject(new Error("no server")) : Promise.resolve(); }
        restart() { rec("restart", true); return Promise.resolve(); }
        stop() { rec("stop", true); return Promise.resolve(); }
    }
    const fs = {
        readFile: (p, ...r) => {
            const cb = r[r.length - 1];
            setImmediate(() => (p in files ? cb(null, Buffer.from(files[p])) : cb(new Error("ENOENT"))));
        },
        readFileSync: (p, enc) => {
            if (!(p in files)) throw new Error("ENOENT");
            return enc ? files[p] : Buffer.from(files[p]);
        },
        existsSync: (p) => p in files,
    };
    fs.promises = { readFile: async (p, enc) => fs.readFileSync(p, enc) };
    const start = (file, args, options, cb) => {
        rec("exec", { cmd: file, args, options: { cwd: options && options.cwd } });
        execDone = cb;
        return { on() {} };
    };
    const cp = {
        exec: (cmd, o, cb) => (typeof o === "function" ? start(cmd, null, {}, o) : start(cmd, null, o, cb)),
        execFile: (f, a, o, cb) => Array.isArray(a) ? start(f, a, o, cb) : start(f, [], a, o),
    };
    const mocks = { vscode, "vscode-languageclient": { LanguageClient }, "vscode-languageclient/node": { LanguageClient }, fs, "fs/promises": fs.promises, child_process: cp, path };
    const load = (n) => {
        n = n.replace(/^node:/, "");
        if (n in mocks) return mocks[n];
        return require(n);
    };
    Object.defineProperty(process, "platform", { value: c.platform });
    rejections = [];
    const steps = [];
    try {
        const m = { exports: {} };
        vm.runInThisContext(Module.wrap(code.outputText), { filename: "extension.js" })(m.exports, load, m, "extension.js", "/");
        const context = { extensionPath: c.ext, subscriptions: [] };
        const done = async (f) => {
            seen = [];
            let threw = null;
            try {
                const r = f();
                if (r && r.then) await r;
            } catch (e) {
                threw = String(e);
            }
            await settle();
            steps.push({ seen, threw, status: status.text, shown: status.shown, effective: effective("calculate.pathtime.enable"),
                cfg: JSON.parse(JSON.stringify(cfg)), commands: Object.keys(registered).sort() });
        };
        answers.warn = (c.answers || []).slice();
        answers.dialog = c.dialog === undefined ? [] : [c.dialog];
        await done(() => m.exports.activate(context));
        for (const e of c.events) {
            answers.warn = (e.answers || []).slice();
            answers.dialog = e.dialog === undefined ? [] : [e.dialog];
            answers.updateFails = !!e.updateFails;
            await done(() => {
                if (e.k === "command") return registered[e.name] && registered[e.name]();
                if (e.k === "set") return set(e.target, e.key, e.value);
                if (e.k === "other") return fire(e.key);
                if (e.k === "exec" && execDone) {
                    const f = execDone;
                    execDone = null;
                    return f(e.err ? new Error("failed") : null, "");
                }
                if (e.k === "file") {
                    if (e.content !== undefined) files[e.path] = e.content;
                    for (const w of watchers) {
                        const dir = path.dirname(e.path);
                        const rx = new RegExp("^" + w.pattern.pattern.replace(/[.+^${}()|[\]\\]/g, "\\$&").replace(/\*/g, ".*") + "$");
                        if (path.normalize(w.pattern.base) === dir && rx.test(path.basename(e.path)) && !w.ignore[e.what])
                            w[e.what].fire(vscode.Uri.file(e.path));
                    }
                    return;
                }
                if (e.k === "deactivate") return m.exports.deactivate();
            });
        }
    } finally {
        Object.defineProperty(process, "platform", { value: realPlatform });
    }
    return { steps, rejections };
}

const rl = readline.createInterface({ input: process.stdin });
let queue = Promise.resolve();
rl.on("line", (l) => {
    queue = queue.then(async () => {
        let r;
        try {
            r = await play(JSON.parse(l));
        } catch (e) {
            r = { failed: String((e && e.stack) || e) };
        }
        process.stdout.write(JSON.stringify(r) + "\n");
    });
});
