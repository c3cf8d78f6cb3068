// Runs the embedded client, fetched from a real application (drv_e2e), in a JavaScript engine whose window, document,
// console and WebSocket are simulated. usage : node e2e.js <driver> <scenarios> <events>
'use strict';
const fs = require('fs'), vm = require('vm'), zlib = require('zlib'), crypto = require('crypto'), { spawn } = require('child_process');
const [driver, source, target] = process.argv.slice(2);
const output = fs.openSync(target, 'w');

// ------------------------------------------------------------------ text forms
function bytesOf(t) { // of the drivers : hexadecimal groups
    const parts = [];
    if (t !== '-')
        for (const g of t.split(',')) {
            const star = g.indexOf('*');
            parts.push(star < 0 ? Buffer.from(g, 'hex') : Buffer.alloc(parseInt(g.slice(star + 1)), parseInt(g.slice(0, 2), 16)));
        }
    return Buffer.concat(parts);
}
function runs(data) {
    const r = [];
    for (let i = 0; i < data.length;) {
        let j = i;
        while (j < data.length && data[j] === data[i]) ++j;
        r.push([data[i], j - i]);
        i = j;
    }
    return r;
}
const text = (s) => runs(Buffer.from(s, 'utf8'));
function valueOf(j) { // JavaScript value of a described one
    switch (j.k) {
    case 'b': return j.v === 1;
    case 'n': return Buffer.from(j.n).readDoubleLE(0);
    case 's': return Buffer.concat(j.r.map(([v, n]) => Buffer.alloc(n, v))).toString('utf8');
    case 't': return j.l.map(valueOf);
    case 'o': return { some: 'object' };
    default: return undefined;
    }
}
function describe(v) {
    if (v === true || v === false) return { k: 'b', v: v ? 1 : 0 };
    if (typeof v === 'number') { const b = Buffer.alloc(8); b.writeDoubleLE(v, 0); return { k: 'n', n: [...b] }; }
    if (typeof v === 'string') return { k: 's', r: text(v) };
    if (Array.isArray(v)) return { k: 't', l: v.map(describe) };
    return { k: 'x' };
}

// ------------------------------------------------------------------ the application
class Service {
    constructor() {
        this.process = spawn(driver, [], { stdio: ['pipe', 'pipe', 'ignore'] });
        this.pending = '';
        this.lines = [];
        this.dead = false;
        this.process.stdin.on('error', () => {});
        this.process.stdout.on('data', (d) => {
            this.pending += d.toString('latin1');
            const l = this.pending.split('\n');
            this.pending = l.pop();
            this.lines.push(...l);
            if (this.wake && this.lines.length && this.lines[this.lines.length - 1] === 'ok') this.wake();
        });
        this.process.on('exit', () => { this.dead = true; if (this.wake) this.wake(); });
    }
    write(line) { if (!this.dead) this.process.stdin.write(line + '\n', 'latin1'); }
    // result : the lines of the answer, null when the application crashed or hangs
    async ask(line) {
        this.lines = [];
        this.write(line);
        let timer, late = false;
        if (!this.dead) await new Promise((done) => {
            this.wake = done;
            timer = setTimeout(() => { late = true; done(); }, 20000);
        });
        clearTimeout(timer);
        this.wake = null;
        if (late) { this.process.kill('SIGKILL'); throw { o: 'hang' }; }
        if (this.dead) throw { o: 'crash' };
        return this.lines.slice(0, -1);
    }
}

let service = null, scenario = 0, pages = {}, connections = {}, nextRequest = 100, held = false, chunk = 1 << 20, cut = 1 << 20;
function event(e) { fs.writeSync(output, JSON.stringify(Object.assign({ s: scenario }, e)) + '\n'); }

async function tell(line) {
    for (const l of await service.ask(line)) {
        if (l[0] === '{') fs.writeSync(output, l + '\n');
        else if (l.startsWith('out ')) {
            const [, id, hex] = l.split(' ');
            if (connections[id]) connections[id].inbox.push(Buffer.from(hex, 'hex'));
        }
        else if (l.startsWith('closed ')) {
            const c = connections[l.split(' ')[1]];
            if (c) c.closed = true;
        }
    }
}
async function get(path) {
    const id = nextRequest++, c = connections[id] = { inbox: [] };
    await tell('accept ' + id);
    await tell('data ' + id + ' ' + chunk + ' ' + Buffer.from('GET ' + path + ' HTTP/1.1\r\nHost: localhost:80\r\nUser-Agent: page\r\nAccept: */*\r\nAccept-Encoding: gzip, deflate, br\r\n\r\n').toString('hex'));
    await tell('fin ' + id);
    const answer = Buffer.concat(c.inbox), head = answer.indexOf('\r\n\r\n');
    delete connections[id];
    const lines = answer.slice(0, head).toString('latin1').split('\r\n'), headers = {};
    for (const l of lines.slice(1)) headers[l.slice(0, l.indexOf(':')).trim().toLowerCase()] = l.slice(l.indexOf(':') + 1).trim();
    const body = answer.slice(head + 4);
    if (head < 0 || !/^HTTP\/1\.[01] 200 /.test(lines[0]) || Number(headers['content-length']) !== body.length) throw { o: 'nofile', path: text(path) };
    const coding = headers['content-encoding'];
    try {
        const content = coding === 'br' ? zlib.brotliDecompressSync(body) : coding === 'gzip' ? zlib.gunzipSync(body) : body;
        return { content: content.toString('utf8'), type: headers['content-type'] || '' };
    }
    catch (e) { throw { o: 'nofile', path: text(path) }; }
}

// ------------------------------------------------------------------ a page
class Page {
    constructor(id) {
        this.id = id;
        this.outbox = [];
        this.depth = 0;
        const page = this;
        const box = this.window = { TextEncoder, TextDecoder, location: { port: '80', hostname: 'localhost' }, isSecureContext: true };
        box.window = box;
        box.console = { log: (...a) => page.printed(a), error() { if (page.receiving && !page.depth) event({ o: 'missed', c: page.id }); }, warn() {}, info() {}, debug() {} };
        box.WebSocket = class {
            constructor(url, protocols) { page.socket = this; this.url = url; this.protocols = [].concat(protocols); this.binaryType = 'blob'; this.readyState = 0; }
            send(data) {
                if (this.readyState !== 1) throw new Error('InvalidStateError');
                const d = typeof data === 'string' ? Buffer.from(data, 'utf8') : data.buffer ? Buffer.from(data.buffer, data.byteOffset, data.byteLength) : Buffer.from(data);
                page.send(typeof data === 'string' ? 1 : 2, Buffer.from(d));
            }
            close() { page.send(8, Buffer.from([3, 232])); this.readyState = 2; }
        };
        box.document = {
            createElement: (tag) => ({ tag, text: '' }),
            body: { appendChild: (e) => { event({ o: 'jsscript', c: page.id, d: text(String(e.text)) }); page.run(String(e.text)); return e; } },
        };
        vm.createContext(box);
    }
    run(code) { ++this.depth; try { vm.runInContext(code, this.window, { timeout: 2000 }); } catch (e) { } --this.depth; }
    printed(a) {
        if (this.depth) return; // by the page itself
        if (a.length === 2 && String(a[0]).startsWith('WebLink negociated')) { this.linked = true; event({ o: 'linked', c: this.id }); }
        else if (this.receiving && a.length === 1) event({ o: 'jslog', c: this.id, d: text(String(a[0])) });
    }
    define(name) {
        const path = name.split('.'), leaf = path.pop();
        let o = this.window;
        for (const p of path) o = o[p] = o[p] || {};
        const page = this;
        o[leaf] = function (...args) {
            event({ o: 'jsran', c: page.id, f: text(name), args: args.map(describe) });
            ++page.depth;
            try {
                if (leaf === 'echo') page.call(args[0], args.slice(1)); // calls the application from a call of the application
            }
            finally { --page.depth; }
        };
        event({ o: 'def', c: this.id, f: text(name) });
    }
    call(name, args) {
        const f = text(name), described = args.map(describe);
        let ok = true;
        ++this.depth;
        const before = this.outbox.length;
        this.quietly = [];
        try { this.window.__a = args; this.window.__n = name; vm.runInContext('webFront.cppFunction(__n)(...__a)', this.window); }
        catch (e) { ok = false; }
        --this.depth;
        if (ok !== this.outbox.length > before) ok = !ok && 'odd';
        event({ o: 'cpp', c: this.id, f, args: described, ok });
    }
    send(op, data) {
        const key = crypto.createHash('sha1').update(String(this.id) + this.outbox.length + data.length).digest().slice(0, 4);
        const head = data.length < 126 ? Buffer.from([0x80 | op, 0x80 | data.length])
            : data.length < 65536 ? Buffer.from([0x80 | op, 0x80 | 126, data.length >> 8, data.length & 255])
            : Buffer.concat([Buffer.from([0x80 | op, 0x80 | 127, 0, 0, 0, 0]), (() => { const b = Buffer.alloc(4); b.writeUInt32BE(data.length); return b; })()]);
        const masked = Buffer.from(data);
        for (let i = 0; i < masked.length; ++i) masked[i] ^= key[i & 3];
        this.outbox.push(Buffer.concat([head, key, masked]));
    }
    // as a browser does
    async connect() {
        const c = connections[this.id] = { inbox: [] };
        this.connection = c;
        const u = new URL(this.socket.url);
        if (u.protocol !== 'ws:' || u.hostname !== 'localhost' || (u.port || '80') !== '80') throw { o: 'badurl' };
        const key = crypto.createHash('md5').update('key' + this.id + scenario).digest().toString('base64');
        await tell('accept ' + this.id);
        await tell('data ' + this.id + ' ' + chunk + ' ' + Buffer.from('GET / HTTP/1.1\r\nHost: localhost\r\nUser-Agent: page\r\nPragma: no-cache\r\nUpgrade: websocket\r\nConnection: keep-alive, Upgrade\r\nOrigin: http://localhost\r\nSec-WebSocket-Version: 13\r\nSec-WebSocket-Extensions: permessage-deflate; client_max_window_bits\r\n'
            + 'Sec-WebSocket-Key: ' + key + '\r\nSec-WebSocket-Protocol: ' + this.socket.protocols.join(', ') + '\r\n\r\n').toString('hex'));
        const answer = Buffer.concat(c.inbox), end = answer.indexOf('\r\n\r\n');
        const head = answer.slice(0, end).toString('latin1').split('\r\n');
        const header = (n) => head.slice(1).filter((l) => l.toLowerCase().startsWith(n + ':')).map((l) => l.slice(n.length + 1).trim());
        const accept = crypto.createHash('sha1').update(key + '258EAFA5-E914-47DA-95CA-C5AB0DC85B11').digest().toString('base64');
        const ok = end > 0 && head[0].startsWith('HTTP/1.1 101') && /^websocket$/i.test(header('upgrade')[0] || '') && /upgrade/i.test(header('connection')[0] || '')
            && header('sec-websocket-accept')[0] === accept && this.socket.protocols.includes(header('sec-websocket-protocol')[0]) && header('sec-websocket-extensions').length === 0;
        if (!ok) throw { o: 'noupgrade' };
        c.inbox = answer.length > end + 4 ? [answer.slice(end + 4)] : [];
        this.parts = [];
        this.rest = Buffer.alloc(0);
        this.socket.readyState = 1;
        this.guard(() => this.socket.onopen({}));
    }
    guard(f) { try { f(); } catch (e) { event({ o: 'uncaught', c: this.id, what: text(String(e)) }); } }
    receive(data) {
        this.rest = Buffer.concat([this.rest, data]);
        for (;;) {
            const d = this.rest;
            if (d.length < 2) return;
            let n = d[1] & 127, at = 2;
            if (n === 126) { if (d.length < 4) return; n = d.readUInt16BE(2); at = 4; }
            else if (n === 127) { if (d.length < 10) return; n = Number(d.readBigUInt64BE(2)); at = 10; }
            const op = d[0] & 15;
            if (d[1] & 128 || d[0] & 0x70 || ![0, 1, 2, 8, 9, 10].includes(op) || (op === 0) !== (this.parts.length > 0) && op < 8) throw { o: 'badframe', c: this.id };
            if (d.length < at + n) return;
            const payload = Buffer.from(d.slice(at, at + n));
            this.rest = d.slice(at + n);
            if (op === 8) { this.socket.readyState = 3; this.over = true; event({ o: 'closedbyserver', c: this.id }); continue; }
            if (op > 8) continue;
            if (op) this.op = op;
            this.parts.push(payload);
            if (!(d[0] & 128)) { if (!payload.length) this.parts.push(payload); continue; }
            const whole = Buffer.concat(this.parts);
            this.parts = [];
            const message = this.op === 1 ? whole.toString('utf8') : this.socket.binaryType === 'arraybuffer' ? new Uint8Array(whole).buffer : null;
            this.receiving = true;
            this.guard(() => this.socket.onmessage({ data: message }));
            this.receiving = false;
        }
    }
}

// moves everything both sides have for each other
async function pump() {
    for (let more = true; more && !held;) {
        more = false;
        for (const p of Object.values(pages)) {
            if (p.left) continue;
            while (p.connection.inbox.length && !p.left) {
                const d = p.connection.inbox.shift();
                for (let i = 0; i < d.length; i += cut) p.receive(d.subarray(i, i + cut));
                more = true;
            }
            if (p.outbox.length) {
                const d = Buffer.concat(p.outbox);
                p.outbox = [];
                await tell('data ' + p.id + ' ' + chunk + ' ' + d.toString('hex'));
                more = true;
            }
            if (p.connection.closed && !p.left) { p.left = true; event({ o: 'closedbyserver', c: p.id }); }
        }
    }
}

async function play(ops) {
    if (!service || service.dead) service = new Service();
    pages = {}, connections = {}, nextRequest = 100, held = false, chunk = cut = 1 << 20;
    service.write('S ' + scenario);
    for (const line of ops) {
        const l = line.split(' '), id = Number(l[1]), p = pages[id];
        switch (l[0]) {
        case 'chunk': chunk = Number(l[1]); continue;
        case 'cut': cut = Number(l[1]); continue;
        case 'writes': await tell(line); continue;
        case 'page': {
            const html = await get('/');
            if (!/html/.test(html.type)) throw { o: 'nofile', path: text('/') };
            const page = new Page(id), scripts = [...html.content.matchAll(/<script[^>]*\ssrc\s*=\s*["']?([^"'\s>]+)/g)].map((m) => m[1]);
            for (const s of scripts) {
                const { content, type } = await get(s.startsWith('/') ? s : '/' + s);
                if (!/javascript/.test(type)) throw { o: 'nofile', path: text(s) };
                vm.runInContext(content, page.window);
            }
            if (!page.socket) throw { o: 'noclient' };
            event({ o: 'page', c: id });
            pages[id] = page;
            await page.connect();
            break;
        }
        case 'hold': held = true; continue;
        case 'release': held = false; break;
        case 'settle': held = false; await pump(); event({ o: 'q' }); continue;
        case 'def': if (p && !p.left) p.define(bytesOf(l[2]).toString('utf8')); continue;
        case 'cpp': if (p && !p.left) p.call(bytesOf(l[2]).toString('utf8'), l.slice(3).filter((a) => a).map((a) => valueOf(JSON.parse(Buffer.from(a, 'hex').toString())))); break;
        case 'leave': {
            if (!p || p.left) continue;
            await pump();
            p.left = true;
            event({ o: 'left', c: id });
            if (l[2] === 'close') await tell('data ' + id + ' ' + chunk + ' 88828000800083e8');
            if (l[2] !== 'reset') await tell('fin ' + id);
            else await tell('reset ' + id);
            break;
        }
        default: await tell(line);
        }
        await pump();
    }
}

(async () => {
    let all = [];
    for (const line of fs.readFileSync(source, 'latin1').split('\n')) {
        if (line.startsWith('S ')) all.push([Number(line.slice(2)), []]);
        else if (line) all[all.length - 1][1].push(line);
    }
    for (const [id, ops] of all) {
        scenario = id;
        try { await play(ops); }
        catch (e) {
            if (!e || !e.o) e = { o: 'failure', what: text(String(e && e.stack)) };
            event(e);
            if (service) { service.process.kill('SIGKILL'); service = null; }
        }
    }
    process.exit(0);
})();
